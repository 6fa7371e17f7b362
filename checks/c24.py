"""C24: ticks are exact, labels state the tick's value, the partition is the best rated one.

Parts: rational arithmetic against fractions.Fraction; partitions of the parters against an
exact enumeration; labels parsed back into exact numbers; the rating of all partitions offered
to a recording rater recomputed from the documented formulas; and graphs typeset by TeX, whose
tick strokes and label glyphs are decoded from the PDF."""
import math, re
from fractions import Fraction as F
import geo, gen, scene, pub
from harness import Skip
from pyx import graph, text, path, unit, canvas
from pyx.graph import axis
from pyx.graph.axis import parter, tick, painter, texter, rater

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("random rationals, tick lists, partitioners (linear, logarithmic, automatic) with random distances, levels, extensions and ranges, texters with all options on random tick lists, "
        "axes with automatic partitions rated by a recording rater, and painted graphs decoded from PDF; distinct by parameters")
QUICK, THOROUGH = 9000, 400000
CPU = 120
REQUIRED = {"auto-partitions": 147, "autolog-partitions": 81, "candidates": 180, "chosen": 44, "chosen-by-layout": 25, "equidistant": 47, "given-distance": 6, "labels-decimal": 1533, "labels-exponential": 335, "labels-period": 271, "labels-rational": 383, "labels-unity": 19, "linear-partitions": 243, "linked-axes": 39, "log-partitions": 140, "log-partitions-neg": 61, "manual-ticks": 12, "merged": 861, "painted": 39, "painted-labels": 235, "painted-labels-exponential": 69, "painted-labels-plain": 166, "painted-manual": 9, "rationals": 146, "rejected-layout": 19, "several-layouts": 40, "ticks": 35714, "manual-only": 3, "refused": 10}
DIRECTED = ["refuse", "manual"]
ASSUMPTIONS = ["labels are compared as the strings handed to the text engine, and as glyphs of Computer Modern fonts in the painted graphs"]
PT = gen.PT


def fr(t): return F(t.num, t.denom)


# ---------------------------------------------------------------- rationals
def rnum(rng, nonzero=False):
    "a value and one of its notations"
    while 1:
        k = rng.randrange(7)
        if k == 0:
            n, d = rng.randint(-60, 60), rng.choice([1, 2, 3, 4, 7, 10, 12, -3, -5, 10**9])
            v, x = F(n, d), (n, d)
        elif k == 1:
            v = F(rng.randint(-10**rng.randint(1, 20), 10**rng.randint(1, 20))); x = int(v)
        elif k == 2:
            x = rng.choice([rng.uniform(-10, 10), rng.uniform(-1, 1)*10**rng.randint(-12, 12), round(rng.uniform(-10, 10), 2), float(rng.randint(-9, 9))])
            v = F("%.10g" % x)
        elif k == 3:
            s = rng.choice(["", "", "-", "+"]) + str(rng.randint(0, 1000)) + rng.choice(["", "", ".", ".%03d" % rng.randint(0, 999), ".5"])
            if rng.random() < 0.2: s = rng.choice(["", "-"]) + ".%d" % rng.randint(0, 999)
            if rng.random() < 0.4: s += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randint(0, 20))
            x = s if rng.random() < 0.8 else " %s " % s
            v = F(s if not s.split("e")[0].split("E")[0].endswith(".") else s.replace(".", "", 1))
        elif k == 4:
            a, b = rng.randint(-50, 50)/F(4), rng.randint(1, 50)/F(4)
            x = "%s/%s" % (float(a), float(b)); v = a/b
        elif k == 5:
            v = F(rng.randint(-10**12, 10**12), rng.randint(1, 10**9)); x = v
        else:
            v = F(rng.randint(-100, 100), rng.randint(1, 100)); x = tick.rational((v.numerator, v.denominator)) if rng.random() < 0.5 else tick.tick((v.numerator*3, v.denominator*3), ticklevel=1)
        if v or not nonzero: return v, x


def rationals(rng, mon):
    va, xa = rnum(rng)
    power = rng.choice([1, 1, 1, 1, 0, 2, 3, -1, -2, -3])
    if not va and power < 0: power = 1
    mon.describe("rational %r power %d" % (str(xa), power))
    mon.nontrivial(["r", str(xa), power])
    cls = rng.choice([tick.rational, tick.tick])
    a = cls(xa, power=power)
    va = va**power
    mon.check(fr(a) == va, "rational-value", lambda: "rational(%r, power=%d) is %s, expected %s" % (str(xa), power, fr(a), va))
    vb, xb = rnum(rng)
    b = tick.rational(xb)
    mon.check(fr(b) == vb, "rational-value", lambda: "rational(%r) is %s, expected %s" % (str(xb), fr(b), vb))
    if rng.random() < 0.2:
        k = rng.choice([2, -1, -7])
        b, vb = tick.rational((a.num*k, a.denom*k)), va
    for name, got, want in (("<", a < b, va < vb), (">", a > b, va > vb), ("<=", a <= b, va <= vb), (">=", a >= b, va >= vb), ("==", a == b, va == vb), ("!=", a != b, va != vb)):
        mon.check(bool(got) == want, "rational-order", lambda: "%s %s %s is %r" % (a, name, b, got))
    mon.check(fr(a*b) == va*vb, "rational-arithmetic", lambda: "%s * %s = %s" % (a, b, a*b))
    if vb: mon.check(fr(a/b) == va/vb, "rational-arithmetic", lambda: "%s / %s = %s" % (a, b, a/b))
    mon.check(fr(abs(a)) == abs(va), "rational-arithmetic", lambda: "abs(%s) = %s" % (a, abs(a)))
    c = tick.rational(a)
    c *= b
    mon.check(fr(c) == va*vb and fr(a) == va, "rational-arithmetic", lambda: "%s *= %s gives %s (a copy of %s)" % (a, b, c, a))
    if vb:
        c = tick.rational(a)
        c /= b
        mon.check(fr(c) == va/vb and fr(a) == va, "rational-arithmetic", lambda: "%s /= %s gives %s" % (a, b, c))
    f = float(a)
    mon.check(abs(F(f)-va) <= abs(va)*F(1, 2**50), "rational-float", lambda: "float(%s) is %r" % (a, f))
    mon.check(F(str(a).split("/")[0]) / F(str(a).split("/")[1]) == va, "rational-str", lambda: "str is %s for %s" % (a, va))
    x = rng.choice([rng.uniform(-3, 3), rng.randint(-3, 3)])
    if F(x) != va: mon.check((a < x) == (va < F(x)) and (a > x) == (va > F(x)), "rational-order", lambda: "order of %s and %r" % (a, x))
    mon.count("rationals")


# ---------------------------------------------------------------- tick lists
def ticklist(rng, n, unique=True):
    d = F(rng.choice([1, 2, 5, 1, 25]), rng.choice([1, 2, 4, 10, 3, 100]))
    ks = sorted(rng.sample(range(-12, 13), min(n, 25)))
    out = []
    for k in ks:
        v = k*d
        m = rng.choice([1, 1, 2, 3])
        out.append(tick.tick((v.numerator*m, v.denominator*m), ticklevel=rng.choice([None, 0, 0, 1, 2]), labellevel=rng.choice([None, 0, 0, 1]),
                             label=rng.choice([None, None, None, "L%d" % k])))
    return out, d


def merging(rng, mon):
    a, d = ticklist(rng, rng.randint(0, 8))
    b = []
    for k in sorted(rng.sample(range(-24, 25), rng.randint(0, 8))):
        v = k*d/2
        b.append(tick.tick((v.numerator, v.denominator), ticklevel=rng.choice([None, 0, 1, 2]), labellevel=rng.choice([None, 0, 1]), label=rng.choice([None, None, "M%d" % k])))
    eq = rng.randrange(2)
    info = lambda l: [(str(fr(t)), t.ticklevel, t.labellevel, t.label) for t in l]
    ia, ib = info(a), info(b)
    mon.describe("mergeticklists(%r, %r, mergeequal=%d)" % (ia, ib, eq))
    mon.nontrivial(["m", repr(ia), repr(ib), eq])
    na, nb = len(a), len(b)
    got = tick.mergeticklists(a, b, mergeequal=eq)
    mon.check(len(a) == na and len(b) == nb, "merge-arguments", lambda: "the lists have been changed: %r %r" % (info(a), info(b)))
    low = lambda x, y: y if x is None else x if y is None else min(x, y)
    want = {F(x[0]): x[1:] for x in ia}
    for x in ib:
        p = F(x[0])
        if p in want:
            if eq: want[p] = (low(want[p][0], x[1]), low(want[p][1], x[2]), want[p][2] if want[p][2] is not None else x[3])
        else: want[p] = x[1:]
    want = [(str(p),)+want[p] for p in sorted(want)]
    mon.check(info(got) == want, "merge", lambda: "got %r, expected %r" % (info(got), want))
    mon.count("merged", len(want))


# ---------------------------------------------------------------- partitions
class Ambiguous(Exception): pass


def snap(q):
    "index of the tick at q (q in units of the distance) or (floor, ceil); q is an exact number"
    r = round(q)
    e = abs(q-r)
    if e <= F(3, 10**11): return r, r
    if e < F(1, 10**8): raise Ambiguous
    return math.floor(q), math.ceil(q)


def linpart(min, max, tickds, labelds, et, el, xmin, xmax):
    "{position: (ticklevel, labellevel)} and the range"
    lo, hi = F(min), F(max)
    big = max_(abs(lo), abs(hi))
    for ds, e in ((tickds, et), (labelds, el)):
        if e is not None and e < len(ds):
            d = ds[e]
            if big*F(1, 2**52)/d > F(1, 10**11): raise Ambiguous
            if xmin: lo = snap(lo/d)[0]*d
            if xmax: hi = snap(hi/d)[1]*d
    res = {}
    for i, ds in enumerate((tickds, labelds)):
        for level, d in enumerate(ds):
            if big*F(1, 2**52)/d > F(1, 10**11): raise Ambiguous
            a, b = snap(lo/d)[1], snap(hi/d)[0]
            if b-a > 400: raise Ambiguous
            for k in range(a, b+1):
                r = res.setdefault(k*d, [None, None])
                if r[i] is None: r[i] = level
    return {k: tuple(v) for k, v in res.items()}, lo, hi


def max_(*a): return max(a)


def logsnap(x, p, base):
    "n with x = p*base**n (snapped) as (floor, ceil)"
    n = math.log(float(x)/float(p))/math.log(base)
    r = round(n)
    e = abs(n-r)
    if e <= 3e-11: return r, r
    if e < 1e-8: raise Ambiguous
    return math.floor(n), math.ceil(n)


def logpart(min, max, ticks, labels, et, el, xmin, xmax):
    neg = max < 0
    lo, hi = (-max, -min) if neg else (min, max)
    if neg: xmin, xmax = xmax, xmin
    lo, hi = F(lo), F(hi)
    for ps, e in ((ticks, et), (labels, el)):
        if e is not None and e < len(ps):
            pres, base = ps[e]
            if xmin: lo_ = max_(*[p*F(base)**logsnap(lo, p, base)[0] for p in pres])
            if xmax: hi = min_(*[p*F(base)**logsnap(hi, p, base)[1] for p in pres])
            if xmin: lo = lo_
    res = {}
    for i, ps in enumerate((ticks, labels)):
        for level, (pres, base) in enumerate(ps):
            for p in pres:
                a, b = logsnap(lo, p, base)[1], logsnap(hi, p, base)[0]
                if b-a > 400: raise Ambiguous
                for k in range(a, b+1):
                    v = p*F(base)**k
                    r = res.setdefault(-v if neg else v, [None, None])
                    if r[i] is None: r[i] = level
    if neg: lo, hi = -hi, -lo
    return {k: tuple(v) for k, v in res.items()}, lo, hi


def min_(*a): return min(a)


def cmppart(mon, got, want, what):
    pos = [fr(t) for t in got]
    mon.check(all(a < b for a, b in zip(pos, pos[1:])), "tick-order", lambda: "%s: ticks %s are not in order" % (what, [str(p) for p in pos]))
    missing = [str(p) for p in sorted(want) if p not in set(pos)]
    extra = [str(p) for p in pos if p not in want]
    mon.check(not missing and not extra, "ticks", lambda: "%s: missing ticks at %s, unexpected ticks at %s (of %d)" % (what, missing[:6], extra[:6], len(want)))
    for t in got:
        mon.check((t.ticklevel, t.labellevel) == want[fr(t)], "tick-level", lambda: "%s: tick at %s has levels %r, expected %r" % (what, t, (t.ticklevel, t.labellevel), want[fr(t)]))
        mon.check(t.label is None, "tick-label", lambda: "%s: tick at %s has label %r" % (what, t, t.label))
    mon.count("ticks", len(pos))


def samepart(got, want):
    return {fr(t): (t.ticklevel, t.labellevel) for t in got} == want


def rdist(rng, d):
    "one of the notations of an exact distance"
    k = rng.randrange(5)
    if k == 0: return (d.numerator, d.denominator)
    if k == 1: return "%d/%d" % (d.numerator, d.denominator)
    if k == 2: return tick.rational((d.numerator, d.denominator))
    if k == 3 and F("%.10g" % float(d)) == d: return float(d)
    if d.denominator == 1: return d.numerator
    return d


def rrange(rng, d):
    "a range of some of the distances d"
    lo = rng.choice([0, rng.uniform(-20, 20), rng.uniform(-2000, 2000), float(rng.randint(-20, 20))])
    hi = lo + rng.choice([rng.uniform(0.1, 40), float(rng.randint(1, 30)), rng.uniform(0.01, 2)])
    lo, hi = float(lo*float(d)), float(hi*float(d))
    if lo == hi: raise Skip
    return min(lo, hi), max(lo, hi)


def linears(rng, mon):
    d = F(rng.choice([1, 2, 5, 25, 3, 7, 15]))*F(10)**rng.choice([0, 0, 0, 1, -1, -2, 3, -5, 9, -12])
    if rng.random() < 0.2: d /= rng.choice([3, 7])
    ds = [d]
    for _ in range(rng.randrange(3)): ds.append(ds[-1]/rng.choice([2, 5, 3, 4, F(3, 2)]))
    lds = None
    r = rng.random()
    if r < 0.4: lds = rng.choice([[], [d], [2*d], [2*d, d], [ds[-1]], [d*3, ds[-1]], [5*d]])
    tds = ds
    if lds and rng.random() < 0.3: tds = None
    et = rng.choice([0, 0, 0, None, 1, 2])
    el = rng.choice([None, None, None, 0, 1])
    lo, hi = rrange(rng, d)
    xmin, xmax = rng.random() < 0.7, rng.random() < 0.7
    kw = {}
    if et != 0 or rng.random() < 0.2: kw["extendtick"] = et
    if el is not None: kw["extendlabel"] = el
    if tds is not None: kw["tickdists"] = [rdist(rng, x) for x in tds]
    if lds is not None: kw["labeldists"] = [rdist(rng, x) for x in lds]
    cls = rng.choice([parter.linear, parter.lin])
    what = "linear(%s), range %r..%r, extend %r %r" % (", ".join("%s=%s" % (k, [str(x) for x in v] if isinstance(v, list) else v) for k, v in sorted(kw.items())), lo, hi, xmin, xmax)
    mon.describe(what)
    mon.nontrivial(["l", what])
    if rng.random() < 0.2 and "tickdists" in kw:
        p = cls(tickdists=["1"])(**dict(dict(labeldists=None, extendtick=et, extendlabel=el), **kw))
    else: p = cls(**kw)
    t = tds if tds is not None else [lds[0]]
    l = lds if lds is not None else [tds[0]]
    try: want, _, _ = linpart(lo, hi, t, l, et, el, xmin, xmax)
    except Ambiguous: raise Skip
    fs = p.partfunctions(lo, hi, xmin, xmax)
    got = fs[0]()
    cmppart(mon, got, want, what)
    for f in fs: mon.check(f() is None, "partition-end", lambda: "%s: a further partition is offered" % what)
    # a partitioner can be used again
    again = p.partfunctions(lo, hi, xmin, xmax)[0]()
    mon.check(samepart(again, want), "partition-again", lambda: "%s: other ticks when used again" % what)
    mon.count("linear-partitions")


PRES = [([F(1)], 10), ([F(1)], 100), ([F(1)], 1000), ([F(1), F(2), F(5)], 10), ([F(k) for k in range(1, 10)], 10), ([F(1), F(3)], 10), ([F(1)], 2), ([F(1), F(3, 2)], 2), ([F(1)], 4), ([F(1), F(3), F(10), F(30)], 100)]


def mkpre(p):
    return parter.preexp([tick.rational((x.numerator, x.denominator)) for x in p[0]], p[1])


def logs(rng, mon):
    ticks = [rng.choice(PRES) for _ in range(rng.choice([1, 2, 2, 3]))]
    labels = rng.choice([None, None, [], [rng.choice(PRES)], [rng.choice(PRES), rng.choice(PRES)]])
    tk = ticks
    if labels and rng.random() < 0.3: tk = None
    et = rng.choice([0, 0, 0, None, 1])
    el = rng.choice([None, None, 0])
    lo = rng.choice([10.0**rng.randint(-9, 9), 10**rng.uniform(-9, 9), rng.choice([2, 3, 5, 9])*10.0**rng.randint(-5, 5)])
    hi = lo*rng.choice([10.0**rng.randint(1, 8), 10**rng.uniform(0.1, 12), rng.uniform(1.01, 30)])
    if rng.random() < 0.3: lo, hi = -hi, -lo
    xmin, xmax = rng.random() < 0.7, rng.random() < 0.7
    kw = {"extendtick": et, "extendlabel": el}
    if tk is not None: kw["tickpreexps"] = [mkpre(p) for p in tk]
    if labels is not None: kw["labelpreexps"] = [mkpre(p) for p in labels]
    s = lambda ps: None if ps is None else [([str(x) for x in p], b) for p, b in ps]
    what = "logarithmic(%r, %r, extendtick=%r, extendlabel=%r), range %r..%r, extend %r %r" % (s(tk), s(labels), et, el, lo, hi, xmin, xmax)
    mon.describe(what)
    mon.nontrivial(["g", what])
    t = tk if tk is not None else [labels[0]]
    l = labels if labels is not None else [ticks[0]]
    try: want, _, _ = logpart(lo, hi, t, l, et, el, xmin, xmax)
    except Ambiguous: raise Skip
    p = rng.choice([parter.logarithmic, parter.log])(**kw)
    f = p.partfunctions(lo, hi, xmin, xmax)
    cmppart(mon, f[0](), want, what)
    mon.check(f[0]() is None, "partition-end", lambda: "%s: a further partition is offered" % what)
    mon.count("log-partitions-neg" if hi < 0 else "log-partitions")


DEFVAR = [[F(1), F(1, 2)], [F(2), F(1)], [F(5, 2), F(5, 4)], [F(5), F(5, 2)]]
VARS = [DEFVAR, DEFVAR, [[F(1)], [F(2)], [F(5)]], [[F(1), F(1, 10)]], [[F(2), F(1)], [F(4), F(2)]], [[F(1), F(1, 5), F(1, 10)], [F(2), F(1, 2)], [F(5), F(1)]]]


def chainlin(mon, p, variants, et, lo, hi, xmin, xmax, n, what):
    "the partitions of an automatic linear partitioner are linear partitions for consecutive distances; returns the lists"
    span = F(hi)-F(lo)
    up, down = p.partfunctions(lo, hi, xmin, xmax)
    ups, downs = [up() for _ in range(n)], [down() for _ in range(n)]
    k0 = math.floor(math.log10(span))
    N = len(variants)
    def at(i): return [v*F(10)**(i//N) for v in variants[i % N]]
    starts = []
    for s in range((k0-2)*N, (k0+3)*N):
        try:
            w = [linpart(lo, hi, at(s+i), [at(s+i)[0]], et, None, xmin, xmax)[0] for i in range(n)]
            if all(samepart(a, b) for a, b in zip(ups, w)): starts.append(s)
        except Ambiguous: return None
    mon.check(bool(starts), "auto-partition", lambda: "%s: the first partitions %s are no linear partitions for consecutive distances" % (what, [[str(fr(t)) for t in x][:20] for x in ups]))
    ok = False
    for s in starts:
        try: ok = ok or all(samepart(a, linpart(lo, hi, at(s-1-i), [at(s-1-i)[0]], et, None, xmin, xmax)[0]) for i, a in enumerate(downs))
        except Ambiguous: return None
    mon.check(ok, "auto-partition", lambda: "%s: the denser partitions %s do not follow the first one by consecutive distances" % (what, [[str(fr(t)) for t in x][:20] for x in downs]))
    return starts, ups, downs


def autolins(rng, mon):
    variants = rng.choice(VARS)
    et = rng.choice([0, 0, 0, None, 1])
    d = F(10)**rng.choice([0, 0, 1, -1, -2, 3, -5, 9, -12])*rng.choice([1, 2, 5, 3])
    lo, hi = rrange(rng, d)
    xmin, xmax = rng.random() < 0.7, rng.random() < 0.7
    kw = {}
    if variants is not DEFVAR or rng.random() < 0.3: kw["variants"] = [[rdist(rng, x) if rng.random() < 0.5 else tick.rational((x.numerator, x.denominator)) for x in v] for v in variants]
    if et != 0: kw["extendtick"] = et
    what = "autolinear(%s, extendtick=%r), range %r..%r, extend %r %r" % ([[str(x) for x in v] for v in variants], et, lo, hi, xmin, xmax)
    mon.describe(what)
    mon.nontrivial(["al", what])
    p = rng.choice([parter.autolinear, parter.autolin])(**kw)
    r = chainlin(mon, p, variants, et, lo, hi, xmin, xmax, rng.choice([2, 3, 4] if len(variants) > 1 else [1, 2]), what)
    if r is None: raise Skip
    # used again, the same partitions are offered
    ups = p.partfunctions(lo, hi, xmin, xmax)[0]()
    mon.check(samepart(ups, {fr(t): (t.ticklevel, t.labellevel) for t in r[1][0]}), "partition-again", lambda: "%s: other ticks when used again" % what)
    mon.count("auto-partitions", len(r[1])+len(r[2]))


LOGVARS = [None, [([PRES[0], PRES[4]], [PRES[0], PRES[3]]), ([PRES[0], PRES[4]], None)], [([PRES[1], PRES[0]], None)], [([PRES[3], PRES[4]], [PRES[3]]), ([PRES[0]], [])]]


def autologs(rng, mon):
    variants = rng.choice(LOGVARS)
    et = rng.choice([0, 0, 0, None])
    lo = rng.choice([10.0**rng.randint(-9, 9), 10**rng.uniform(-9, 9)])
    hi = lo*rng.choice([10.0**rng.randint(1, 8), 10**rng.uniform(0.1, 12), 10**rng.uniform(5, 60)])
    if rng.random() < 0.3: lo, hi = -hi, -lo
    xmin, xmax = rng.random() < 0.7, rng.random() < 0.7
    kw = {"extendtick": et}
    if variants: kw["variants"] = [([mkpre(x) for x in t], None if l is None else [mkpre(x) for x in l]) for t, l in variants]
    what = "autologarithmic(variants %r, extendtick=%r), range %r..%r, extend %r %r" % (LOGVARS.index(variants), et, lo, hi, xmin, xmax)
    mon.describe(what)
    mon.nontrivial(["ag", what])
    p = rng.choice([parter.autologarithmic, parter.autolog])(**kw)
    f, g = p.partfunctions(lo, hi, xmin, xmax)
    try:
        for t, l in reversed(variants or LOGVARS[1]):
            want, _, _ = logpart(lo, hi, t, l if l is not None else [t[0]], et, None, xmin, xmax)
            cmppart(mon, f(), want, what)
        mon.check(f() is None, "partition-end", lambda: "%s: a further partition is offered" % what)
        for n in range(2, 6):
            t = [([F(1)], 10**n), PRES[0]]
            want, _, _ = logpart(lo, hi, t, [t[0]], et, None, xmin, xmax)
            cmppart(mon, g(), want, what+", powers of 10**%d" % n)
    except Ambiguous: raise Skip
    mon.count("autolog-partitions")


# ---------------------------------------------------------------- labels
def expand(v):
    "digits of a non-negative fraction: integer part, non periodic decimals, period"
    n, d = v.numerator, v.denominator
    i, r = divmod(n, d)
    m = d; a = b = 0
    while m % 2 == 0: m //= 2; a += 1
    while m % 5 == 0: m //= 5; b += 1
    pre = max(a, b)
    digits = str(r*10**pre//d).rjust(pre, "0") if pre else ""
    r = r*10**pre % d
    period = ""
    if m > 1:
        k, x = 1, 10 % m
        while x != 1: x = x*10 % m; k += 1
        period = str(r*10**k//d).rjust(k, "0")
    return str(i), digits, period


def period(v):
    "length of the period (up to 300)"
    m = v.denominator
    while m % 2 == 0: m //= 2
    while m % 5 == 0: m //= 5
    k, x = 1, 10 % m if m > 1 else 1
    while x != 1 and k <= 300: x = x*10 % m; k += 1
    return k


class Dec:
    "options of a decimal texter"

    def __init__(self, rng, simple=False):
        self.kw = kw = {}
        c = rng.choice
        if not simple:
            if rng.random() < 0.3: kw["prefix"] = c(["p", "$", "\\pm{}"])
            if rng.random() < 0.3: kw["infix"] = c(["i", "\\,"])
            if rng.random() < 0.3: kw["suffix"] = c(["s", "\\%", "\\,km"])
            if rng.random() < 0.3: kw["plus"] = c(["+", "P"])
            if rng.random() < 0.2: kw["minus"] = c(["m", "\\neg"])
            if rng.random() < 0.2: kw["period"] = c(["(%s)", "\\overline{%s}", "[%s]"])
        if rng.random() < 0.3: kw["decimalsep"] = c([",", "{,}", "D"])
        if rng.random() < 0.3: kw["thousandsep"] = c(["'", "\\:", "T"])
        if rng.random() < 0.3: kw["thousandthpartsep"] = c(["'", "~", "t"])
        if rng.random() < 0.35: kw["equalprecision"] = rng.choice([True, 1])
        if rng.random() < 0.15: kw["labelattrs"] = rng.choice([[], [text.mathmode, text.size.small]])

    def make(self, rng, mon=None):
        if self.kw and rng.random() < 0.2: return texter.decimal(prefix="no")(**dict({"prefix": ""}, **self.kw))
        return texter.decimal(**self.kw)

    def get(self, k, d): return self.kw.get(k, d)

    def unsigned(self, mon, body, what):
        "value of the unsigned number and the number of decimals (None for a period)"
        ds, ts, tp = self.get("decimalsep", "."), self.get("thousandsep", ""), self.get("thousandthpartsep", "")
        before, after = self.get("period", "\\overline{%s}").split("%s")
        i, sep, f = body.partition(ds)
        mon.check(not sep or f, "label-format", lambda: "%s: trailing decimal separator" % what)
        groups = i.split(ts) if ts else [i]
        mon.check(all(re.fullmatch("[0-9]+", g) for g in groups), "label-format", lambda: "%s: integer part %r" % (what, i))
        if ts: mon.check(1 <= len(groups[0]) <= 3 and all(len(g) == 3 for g in groups[1:]), "label-thousands", lambda: "%s: wrong groups in %r" % (what, i))
        i = "".join(groups)
        mon.check(i == "0" or i[0] != "0", "label-format", lambda: "%s: leading zero" % what)
        period = ""
        plain = f
        if before in f:
            a, b = f.split(before)
            mon.check(b.endswith(after), "label-format", lambda: "%s: period in %r" % (what, f))
            b = b[:len(b)-len(after)]
            plain = a+b
            f, period = a, b
        if tp and plain:
            g = plain.split(tp)
            mon.check(all(len(x) == 3 for x in g[:-1]) and 1 <= len(g[-1]) <= 3, "label-thousands", lambda: "%s: wrong groups in %r" % (what, plain))
            f, period = f.replace(tp, ""), period.replace(tp, "")
        mon.check(re.fullmatch("[0-9]*", f) and re.fullmatch("[0-9]*", period), "label-format", lambda: "%s: fractional part %r %r" % (what, f, period))
        v = F(int(i)) + (F(int(f), 10**len(f)) if f else 0)
        if period: v += F(int(period), (10**len(period)-1)*10**len(f))
        return v, (None if period else len(f)), len(f), len(period)

    def check(self, mon, values, labels, what):
        "the labels state the values"
        prec = [0]
        for v in values:
            _, d, p = expand(abs(v))
            if not p: prec.append(len(d))
        prec = max(prec)
        for v, s in zip(values, labels):
            w = "%s: label %r of %s" % (what, s, v)
            mon.check(isinstance(s, str), "label-type", lambda: "%s is no string" % w)
            head = self.get("prefix", "") + (self.get("minus", "-") if v < 0 else self.get("plus", "")) + self.get("infix", "")
            tail = self.get("suffix", "")
            mon.check(s.startswith(head) and s.endswith(tail), "label-format", lambda: "%s should start with %r and end with %r" % (w, head, tail))
            got, dec, npre, nper = self.unsigned(mon, s[len(head):len(s)-len(tail)], w)
            mon.check(got == abs(v), "label-value", lambda: "%s states %s" % (w, got))
            _, d, p = expand(abs(v))
            if p: mon.check((npre, nper) == (len(d), len(p)), "label-format", lambda: "%s has %d and %d digits, %d and %d are sufficient" % (w, npre, nper, len(d), len(p)))
            elif self.get("equalprecision", False): mon.check(dec == prec, "label-uniform", lambda: "%s has %r decimals, %d expected" % (w, dec, prec))
            else: mon.check(dec == len(d), "label-format", lambda: "%s has %r decimals, %d are sufficient" % (w, dec, len(d)))
            mon.count("labels-period" if p else "labels-decimal")


def rvalues(rng):
    k = rng.random()
    if k < 0.5:
        d = rng.choice([F(1), F(2), F(5), F(5, 2), F(1, 3), F(1, 4), F(3, 7), F(1, 17)])*F(10)**rng.choice([0, 0, 1, -1, 2, 3, 4, 6, -3, -4, -7])
        a = rng.randint(-6, 4)
        vals = [(a+i)*d for i in range(rng.randint(1, 8))]
    elif k < 0.75:
        s = rng.choice([1, 1, -1])
        a = rng.randint(-8, 8); st = rng.choice([1, 1, 2, 3])
        vals = [s*rng.choice([1, 1, 1, 2, 5])*F(10)**(a+st*i) for i in range(rng.randint(1, 6))]
    elif k < 0.85:
        b = rng.choice([2, 2, 3]); a = rng.randint(-8, 4)
        vals = [F(b)**(a+i) for i in range(rng.randint(1, 8))]
    else:
        vals = [F(rng.randint(-10**rng.randint(0, 9), 10**rng.randint(0, 9)), rng.choice([1, 1, 2, 5, 8, 10**rng.randint(0, 9), 3, 6, 7, 12, 13, 70, 999])) for _ in range(rng.randint(1, 6))]
    vals = sorted(set(vals))
    ticks = []
    for v in vals:
        m = rng.choice([1, 1, 1, 2, 3, 10, -1])
        ticks.append(tick.tick((v.numerator*m, v.denominator*m), ticklevel=rng.choice([0, 0, 1, None]), labellevel=rng.choice([0, 0, 0, 0, 1, None]), label=rng.choice([None]*8+["fix"]), labelattrs=[text.halign.left] if rng.random() < 0.2 else []))
    return vals, ticks


def labelled(mon, tx, vals, ticks, what):
    "run the texter; returns the values and labels of the ticks to be labelled"
    before = [(t.num, t.denom, t.ticklevel, t.labellevel, t.label, t.labelattrs, list(t.labelattrs)) for t in ticks]
    tx.labels(ticks)
    out = []
    for t, b, v in zip(ticks, before, vals):
        mon.check(fr(t) == v and (t.ticklevel, t.labellevel) == b[2:4], "texter-tick", lambda: "%s: tick %s changed to %s with levels %r %r" % (what, v, t, t.ticklevel, t.labellevel))
        mon.check(b[5] == b[6], "texter-labelattrs", lambda: "%s: the labelattrs have been changed in-place" % what)
        if b[4] is not None: mon.check(t.label == b[4], "label-kept", lambda: "%s: label %r of %s replaced by %r" % (what, b[4], v, t.label))
        elif b[3] is None: mon.check(t.label is None, "label-extra", lambda: "%s: tick %s without label got the label %r" % (what, v, t.label))
        else:
            mon.check(t.label is not None, "label-missing", lambda: "%s: no label for %s" % (what, v))
            mon.check(t.labelattrs[:len(b[6])] == b[6] and all(a in t.labelattrs for a in tx.labelattrs), "label-attrs", lambda: "%s: labelattrs %r from %r" % (what, t.labelattrs, b[6]))
            out.append((v, t.label))
    return out


def decimals(rng, mon):
    vals, ticks = rvalues(rng)
    o = Dec(rng)
    what = "decimal(%s)" % ", ".join("%s=%r" % i for i in sorted(o.kw.items()) if i[0] != "labelattrs")
    mon.describe("%s for %s" % (what, [(str(v), t.labellevel, t.label) for v, t in zip(vals, ticks)]))
    if any(period(v) > 300 for v in vals): raise Skip
    mon.nontrivial(["d", what, [(str(v), t.labellevel) for v, t in zip(vals, ticks)]])
    out = labelled(mon, o.make(rng), vals, ticks, what)
    o.check(mon, [v for v, _ in out], [s for _, s in out], what)


def tex(label): return label.tex if hasattr(label, "tex") else label


def flat(u):
    "unicode text as list of (text, scale, shift)"
    res = []
    for x in u if isinstance(u, list) else [u]:
        if isinstance(x, str): res.append((x, 1, 0))
        elif hasattr(x, "texts"): res.append([flat(y) for y in x.texts] + [x.frac, x.align])
        else: res.append((x.text, x.scale, x.shift))
    return res


def expof(v, b):
    v = abs(v); e = 0
    while v >= b: v /= b; e += 1
    while v < 1: v *= b; e -= 1
    return v, e


class Def:
    def __init__(self, rng, base=None):
        self.kw = kw = {}
        c = rng.choice
        self.base = base or c([F(10)]*6+[F(2), F(3), F(16), F(5, 2)])
        if self.base != 10: kw["base"] = c([self.base, self.base, int(self.base) if self.base.denominator == 1 else self.base])
        self.skip = c(["all", "all", "each", "never"])
        if self.skip != "all" or rng.random() < 0.2: kw["skipmantissaunity"] = getattr(texter.skipmantissaunity, self.skip)
        if rng.random() < 0.2: kw["minusunity"] = c(["M", "-1"])
        self.minexp = 4
        if rng.random() < 0.5: kw["minexponent"] = self.minexp = c([1, 2, 3, 5, 7])
        self.minneg = self.minexp
        if rng.random() < 0.4: kw["minnegexponent"] = self.minneg = c([1, 2, 3, 6])
        self.uniform = True
        if rng.random() < 0.35: kw["uniformexponent"] = self.uniform = False
        if rng.random() < 0.2: kw["multiplicationtex"] = "\\times{}"
        if rng.random() < 0.2: kw["multiplicationunicode"] = "x"
        self.m, self.b, self.e = Dec(rng, True), Dec(rng, True), Dec(rng, True)
        self.m.kw.pop("labelattrs", None)
        if rng.random() < 0.3: self.m.kw = {}
        if rng.random() < 0.6: self.e.kw = {}
        if rng.random() < 0.8: self.b.kw = {}
        if rng.random() < 0.15: self.e.kw["plus"] = "+"
        for n, o in (("mantissatexter", self.m), ("basetexter", self.b), ("exponenttexter", self.e)):
            if not o.kw: continue
            if rng.random() < 0.5: kw[n] = texter.decimal(**o.kw)
            else: kw.update(("%s_%s" % (n, k), v) for k, v in o.kw.items())
        if rng.random() < 0.1: kw["labelattrs"] = [text.mathmode, text.size.small]

    def make(self, rng):
        if rng.random() < 0.15:
            base = dict(minexponent=9)
            return texter.default(**base)(**dict({"minexponent": 4}, **self.kw))
        return texter.default(**self.kw)

    def check(self, mon, out, what):
        b = self.base
        want = []
        for v, _ in out:
            if not v: want.append(False); continue
            m, e = expof(v, b)
            want.append(e >= self.minexp or e <= -self.minneg)
        if self.uniform and any(want): want = [bool(v) for v, _ in out]
        exps = [v for (v, _), w in zip(out, want) if w]
        allunity = all(expof(v, b)[0] == 1 for v in exps)
        bl = {"": ""}
        mvals, mlabels, evals, elabels = [], [], [], []
        for (v, s), w in zip(out, want):
            here = "%s: label of %s" % (what, v)
            if not w:
                mon.check(isinstance(s, str), "label-exponential", lambda: "%s is %r, but no exponential notation is to be used" % (here, tex(s)))
                mvals.append(v); mlabels.append(s)
                continue
            mon.check(hasattr(s, "tex"), "label-exponential", lambda: "%s is %r, but exponential notation is to be used" % (here, s))
            m, e = expof(v, b)
            mult, multu = self.kw.get("multiplicationtex", "\\cdot{}"), self.kw.get("multiplicationunicode", "·")
            t, u = s.tex, flat(s.unicode)
            mon.check(t.endswith("}") and "^{" in t, "label-exponential", lambda: "%s is %r" % (here, t))
            head, _, ex = t[:-1].rpartition("^{")
            skip = m == 1 and (self.skip == "each" or self.skip == "all" and allunity)
            mon.check(len(u) == 2 and u[0][1:] == (1, 0) and u[1][1] < 1 and u[1][2] > 0, "label-unicode", lambda: "%s is %r for the UnicodeEngine" % (here, u))
            mon.check(u[1][0] == ex, "label-unicode", lambda: "%s has exponents %r and %r" % (here, ex, u[1][0]))
            if skip:
                sign = self.kw.get("minusunity", "-") if v < 0 else ""
                mon.check(mult not in head and head.startswith(sign), "label-unity", lambda: "%s is %r, the mantissa is to be skipped" % (here, t))
                base = head[len(sign):]
                mon.check(u[0][0] == head, "label-unicode", lambda: "%s is %r but %r for the UnicodeEngine" % (here, t, u[0][0]))
                mon.count("labels-unity")
            else:
                mon.check(head.count(mult) == 1, "label-unity", lambda: "%s is %r, the mantissa is not to be skipped" % (here, t))
                mant, base = head.split(mult)
                mvals.append(m if v > 0 else -m); mlabels.append(mant)
                mon.check(u[0][0] == mant+multu+base, "label-unicode", lambda: "%s is %r but %r for the UnicodeEngine" % (here, t, u[0][0]))
            evals.append(F(e)); elabels.append(ex)
            self.b.check(mon, [b], [base], here+", base")
            mon.count("labels-exponential")
        # the value is mantissa*base**exponent
        self.m.check(mon, mvals, mlabels, what+", mantissas")
        self.e.check(mon, evals, elabels, what+", exponents")


def defaults(rng, mon):
    vals, ticks = rvalues(rng)
    o = Def(rng)
    what = "default(%s)" % ", ".join("%s=%s" % (k, getattr(v, "__dict__", v)) for k, v in sorted(o.kw.items()) if "labelattrs" not in k)
    mon.describe("%s for %s" % (what, [(str(v), t.labellevel, t.label) for v, t in zip(vals, ticks)]))
    if any(period(expof(v, o.base)[0] if v else v) > 300 for v in vals): raise Skip
    mon.nontrivial(["D", what, [(str(v), t.labellevel) for v, t in zip(vals, ticks)]])
    out = labelled(mon, o.make(rng), vals, ticks, what)
    o.check(mon, out, what)


def rats(rng, mon):
    vals, ticks = rvalues(rng)
    if any(v.denominator > 10**7 for v in vals): raise Skip
    kw = {}
    c = rng.choice
    for n, s in (("prefix", "p"), ("infix", "i"), ("suffix", "s"), ("numprefix", "np"), ("numinfix", "ni"), ("numsuffix", "\\pi"), ("denomprefix", "dp"), ("denominfix", "di"), ("denomsuffix", "ds")):
        if rng.random() < 0.2: kw[n] = s
    if rng.random() < 0.2: kw["plus"] = "+"
    if rng.random() < 0.2: kw["minus"] = "m"
    if rng.random() < 0.4: kw["minuspos"] = c([1, -1, 0])
    if rng.random() < 0.3: kw["over"] = c(["{{%s}/{%s}}", "%s:%s"])
    if rng.random() < 0.3: kw["equaldenom"] = True
    for n in ("skip1", "skipnum0", "skipnum1", "skipdenom1"):
        if rng.random() < 0.25: kw[n] = False
    what = "rational(%s)" % ", ".join("%s=%r" % i for i in sorted(kw.items()))
    mon.describe("%s for %s" % (what, [(str(v), t.labellevel, t.label) for v, t in zip(vals, ticks)]))
    mon.nontrivial(["R", what, [(str(v), t.labellevel) for v, t in zip(vals, ticks)]])
    tx = texter.rational(**kw) if rng.random() < 0.8 else texter.rational(suffix="no")(**dict({"suffix": ""}, **kw))
    out = labelled(mon, tx, vals, ticks, what)
    g = lambda n, d="": kw.get(n, d)
    lcm = 1
    for v, _ in out: lcm = lcm*v.denominator//math.gcd(lcm, v.denominator)
    for v, s in out:
        n, d = abs(v.numerator), v.denominator
        if g("equaldenom", False): n, d = n*(lcm//d), lcm
        sign = g("minus", "-") if v < 0 else g("plus", "")
        mp = g("minuspos", 0)
        s0, s1, s2 = (sign if mp == 0 else ""), (sign if mp == 1 else ""), (sign if mp == -1 else "")
        extra = g("prefix")+g("infix")+g("suffix")
        nextra = g("numprefix")+g("numinfix")+g("numsuffix")
        dextra = g("denomprefix")+g("denominfix")+g("denomsuffix")
        nodenom = g("skipdenom1", True) and d == 1 and not dextra and not s2
        num = g("numprefix")+s1+g("numinfix")+("" if n == 1 and g("skipnum1", True) and nextra else str(n))+g("numsuffix")
        den = g("denomprefix")+s2+g("denominfix")+str(d)+g("denomsuffix")
        if n == 0 and g("skipnum0", True): want, uni = "0", None
        elif n == d == 1 and g("skip1", True) and nodenom and extra and not nextra and not s1: want, uni = g("prefix")+s0+g("infix")+g("suffix"), None
        elif nodenom: want, uni = g("prefix")+s0+g("infix")+num+g("suffix"), None
        else:
            want = g("prefix")+s0+g("infix")+g("over", "{{%s}\\over{%s}}") % (num, den)+g("suffix")
            uni = (g("prefix")+s0+g("infix"), num, den, g("suffix"))
        mon.check(tex(s) == want, "label-rational", lambda: "%s: label of %s is %r, expected %r" % (what, v, tex(s), want))
        if uni and hasattr(s, "unicode"):
            u = flat(s.unicode)
            mon.check(len(u) == 3 and u[0][0] == uni[0] and u[2][0] == uni[3] and u[1][0][0][0] == uni[1] and u[1][1][0][0] == uni[2] and u[1][0][0][2] > u[1][1][0][2],
                      "label-unicode", lambda: "%s: label of %s for the UnicodeEngine is %r" % (what, v, u))
        mon.count("labels-rational")


# ---------------------------------------------------------------- rating
class Cube:
    def __init__(self, opt, left=None, right=None, weight=1):
        self.opt, self.left, self.right, self.weight = opt, 0 if left is None else left, 3*opt if right is None else right, weight
        self.a = (opt, left, right, weight)

    def real(self): return rater.cube(*self.a)

    def rate(self, x, density):
        o = self.opt*density
        if x == o: return 0
        other = (self.left if x < o else self.right)*density
        return self.weight*((x-o)/(other-o))**3


class RecRater(rater.rater):
    def __init__(self, *args, **kwargs):
        rater.rater.__init__(self, *args, **kwargs)
        self.rec = {"ticks": [], "range": [], "layout": []}

    def rateticks(self, axis, ticks):
        r = rater.rater.rateticks(self, axis, ticks)
        self.rec["ticks"].append(({fr(t): (t.ticklevel, t.labellevel) for t in ticks}, r, None))
        return r

    def raterange(self, a, b):
        r = rater.rater.raterange(self, a, b)
        self.rec["range"].append((a, b, r))
        t = self.rec["ticks"][-1]
        self.rec["ticks"][-1] = (t[0], t[1], r)
        return r

    def ratelayout(self, c):
        r = rater.rater.ratelayout(self, c)
        self.rec["layout"].append((c, r))
        return r


class RecPainter(painter.regular):
    def __init__(self, **kw):
        self.log = []
        painter.regular.__init__(self, **kw)

    def paint(self, canvas, data, axis, pos):
        painter.regular.paint(self, canvas, data, axis, pos)
        self.log.append((canvas, [(fr(t), t.ticklevel, t.labellevel, tex(t.label)) for t in data.ticks]))


class LinkPainter(painter.linked):
    def __init__(self, **kw):
        self.log = []
        painter.linked.__init__(self, **kw)

    def paint(self, canvas, data, axis, pos):
        painter.linked.paint(self, canvas, data, axis, pos)
        self.log.append([(fr(t), t.ticklevel, t.labellevel, tex(t.label)) for t in data.ticks])


def rating(rng, mon):
    log = rng.random() < 0.4
    density = rng.choice([1, 1, 1, 0.5, 2, 1.5])
    if log: ticks, labels = [Cube(5, right=20), Cube(20, right=100, weight=0.5)], [Cube(5, right=20), Cube(5, right=20, weight=0.5)]
    else: ticks, labels = [Cube(4), Cube(10, weight=0.5)], [Cube(4)]
    rg = Cube(1, weight=2)
    if rng.random() < 0.3: ticks, labels = [Cube(rng.randint(2, 8), weight=rng.choice([1, 2]))], [Cube(rng.randint(2, 8), right=30)]
    if rng.random() < 0.3: rg = Cube(1, left=rng.choice([0, 0.5]), weight=rng.choice([1, 5]))
    dopt, dw = rng.choice([1, 1, 0.3, 2]), rng.choice([0.1, 0.1, 0.5, 1])
    rr = RecRater([c.real() for c in ticks], [c.real() for c in labels], rg.real(), distance=rater.distance(dopt*unit.v_cm, weight=dw), density=density)
    kw = {}
    if log:
        lo = 10**rng.uniform(-6, 6); hi = lo*10**rng.choice([rng.uniform(0.2, 3), rng.uniform(1, 20)])
        if rng.random() < 0.25: lo, hi = -hi, -lo
    else:
        lo = rng.choice([0, rng.uniform(-5, 5), float(rng.randint(-5, 5))])*10**rng.choice([0, 0, 1, 3, -2, -5])
        hi = lo+rng.choice([rng.uniform(0.5, 12), float(rng.randint(1, 10))])*10**rng.choice([0, 0, 1, 3, -2, -5])
    fixlo, fixhi = rng.random() < 0.4, rng.random() < 0.4
    if fixlo: kw["min"] = lo
    if fixhi: kw["max"] = hi
    if rng.random() < 0.2: kw["reverse"] = 1
    if rng.random() < 0.3: kw["maxworse"] = rng.choice([1, 3, 4])
    maxworse = kw.get("maxworse", 2)
    div = 1
    if rng.random() < 0.2: kw["divisor"] = div = rng.choice([2, 10, 1000, 0.5])
    man = []
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 2])):
            v = F(rng.choice([lo, hi, (lo+hi)/2, lo+(hi-lo)*rng.random()]))/F(div)
            v = F("%.3g" % float(v))
            if F(lo) <= v*F(div) <= F(hi) and v not in [m[0] for m in man]: man.append((v, rng.choice([None, "A"]), rng.choice([0, 1, None]), rng.choice([0, None])))
    if man: kw["manualticks"] = [tick.tick((v.numerator, v.denominator), ticklevel=a, labellevel=b, label=l) for v, l, a, b in man]
    variants = DEFVAR
    et = 0
    if not log and rng.random() < 0.3:
        variants = rng.choice(VARS); et = rng.choice([0, None])
        pr = parter.autolinear(variants=[[tick.rational((x.numerator, x.denominator)) for x in v] for v in variants], extendtick=et)
    else: pr = (parter.autologarithmic if log else parter.autolinear)()
    p, lp = RecPainter(), LinkPainter()
    ax = (axis.log if log else axis.lin)(parter=pr, rater=rr, painter=p, linkpainter=lp, **kw)
    horizontal = rng.random() < 0.5
    size = rng.choice([2, 4, 6, 8, 12])
    what = "%s axis %r..%r of %g cm (%s), %s, density %r, distance %r %r, ticks %r labels %r range %r, manual %r, variants %d extendtick %r" % (
        "log" if log else "lin", lo, hi, size, "horizontal" if horizontal else "vertical", sorted((k, v) for k, v in kw.items() if k != "manualticks"), density, dopt, dw,
        [c.a for c in ticks], [c.a for c in labels], rg.a, [(str(m[0]),)+m[1:] for m in man], VARS.index(variants), et)
    mon.describe(what)
    mon.nontrivial(["rate", what])
    old = text.defaulttextengine
    text.defaulttextengine = scene.texengine("tex")
    try:
        g = graph.graphx(length=size, direction="horizontal" if horizontal else "vertical", x=ax)
        g.plot(graph.data.values(x=[lo, hi]), [graph.style.pos()])
        try: conv = [g.axes["x"].convert(lo), g.axes["x"].convert(hi)]
        except (RuntimeError, ValueError) as e:
            if "no axis partitioning" in str(e): mon.count("no-ticks"); raise Skip
            while e is not None and not isinstance(e, axis.axis.NoValidPartitionError): e = e.__context__
            if e is None: raise
            # all partitions need to be rejected
            mon.check(all(r is None for _, r in rr.rec["layout"][:len(rr.rec["ticks"])]), "not-chosen", lambda: "no partition chosen, although there are layouts rated %r" % [r for _, r in rr.rec["layout"]])
            mon.count("labels-do-not-fit")
            raise Skip
        g.dolayout()
    finally: text.defaulttextengine = old
    if not lp.log: raise Skip
    chosen = lp.log[0]
    cands = [(t, r, s) for t, r, s in rr.rec["ticks"] if r is not None]
    if log and not cands: raise Skip
    # the rates as documented
    def levels(t, i): return [l[i] for l in t.values() if l[i] is not None]
    def rate(t):
        num = den = 0
        any_ = False
        for i, cs in ((0, ticks), (1, labels)):
            l = levels(t, i)
            if not l: continue
            any_ = True
            for k in range(max(l)+1):
                if k < len(cs):
                    num += cs[k].rate(len([x for x in l if x <= k]), density); den += cs[k].weight
        if not any_: return None
        return num/den
    sg = -1 if hi < 0 else 1
    L = (lambda x: sg*math.log(sg*float(x))) if log else float
    def raterg(t):
        ps = sorted(t)
        return rg.rate((L(ps[-1]*F(div))-L(ps[0]*F(div)))/(L(hi)-L(lo)), 1)
    for t, r, s in rr.rec["ticks"]:
        want = rate(t)
        mon.check((r is None) == (want is None) and (r is None or abs(r-want) <= 1e-9*(1+abs(want))), "rate-ticks", lambda: "%s: ticks %s are rated %r, expected %r" % (what, [(str(k), v) for k, v in sorted(t.items())], r, want))
        if r is not None:
            want = raterg(t)
            mon.check(s is not None and abs(s-want) <= 1e-6*(1+abs(want)), "rate-range", lambda: "%s: ticks from %s to %s are rated %r for their range, expected %r" % (what, min(t), max(t), s, want))
    dens = unit.topt(dopt*unit.v_cm)/density
    layouts = {}
    for c, r in rr.rec["layout"]:
        tk = [x for x in p.log if x[0] is c]
        mon.check(len(tk) == 1, "layout-rated", lambda: "%s: a canvas never painted is rated" % what)
        key = frozenset((k/F(div), a, b) for k, a, b, _ in tk[0][1])
        boxes = c.labels
        want = None
        if boxes is not None and len(boxes) > 1:
            try: ds = [boxes[i].boxdistance_pt(boxes[i+1]) for i in range(len(boxes)-1)]
            except Exception: ds = None
            if ds is not None: want = sum(dw*(dens/d-1 if d < dens else d/dens-1) for d in ds)/len(ds)
        mon.check((r is None) == (want is None) and (r is None or abs(r-want) <= 1e-9*(1+want)), "rate-distance", lambda: "%s: label distances are rated %r, expected %r" % (what, r, want))
        layouts[key] = r
    # all partitions along both directions have been offered until maxworse of them were not better
    mant = {v: (a, b) for v, l, a, b in man}
    n = 0
    if not log:
        best = None
        off = [frozenset((k,)+v for k, v in t.items()) for t, _, _ in rr.rec["ticks"]]
        for f in pr.partfunctions(lo/div if div != 1 else lo, hi/div if div != 1 else hi, not fixlo, not fixhi):
            worse = 0
            while worse < maxworse:
                worse += 1
                tk = f()
                if tk is None: break
                t = {fr(x): (x.ticklevel, x.labellevel) for x in tk}
                t.update(mant)
                if not t: continue
                mon.check(frozenset((k,)+v for k, v in t.items()) in off, "partition-offered", lambda: "%s: partition %s has not been considered" % (what, sorted(map(str, t))))
                n += 1
                r = rate(t)
                if r is None: continue
                r += raterg(t)
                if best is None or r < best: best, worse = r, 0
        mon.count("candidates", n)
    # the chosen one
    ck = frozenset((k/F(div), a, b) for k, a, b, _ in chosen)
    mine = [(r+s) for t, r, s in cands if frozenset((k,)+v for k, v in t.items()) == ck]
    if log and not mine and not layouts.get(ck): raise Skip            # the linear fallback
    mon.check(mine, "chosen-offered", lambda: "%s: the ticks %s of the axis are none of the offered partitions" % (what, [str(c[0]) for c in chosen]))
    if len(cands) > 1:
        mon.check(layouts.get(ck) is not None, "chosen-layout", lambda: "%s: the labels of the chosen partition %s do not fit" % (what, [str(c[0]) for c in chosen]))
        total = min(mine)+layouts[ck]
        for t, r, s in cands:
            k = frozenset((k,)+v for k, v in t.items())
            if k in layouts:
                if layouts[k] is None: continue
                o = r+s+layouts[k]
            else: o = r+s
            mon.check(total <= o+1e-9*(1+abs(o)), "best-rated", lambda: "%s: ticks %s are chosen with a rate of %r, but ticks %s have a rate of %r%s" % (what, [str(c[0]) for c in chosen], total, sorted(map(str, t)), o, "" if k in layouts else " without taking into account the labels"))
        mon.count("chosen")
        if any(r is None for r in layouts.values()): mon.count("rejected-layout")
        if len(layouts) > 1: mon.count("several-layouts")
        if min(r+s for t, r, s in cands) < min(mine): mon.count("chosen-by-layout")
    for v, l, a, b in man:
        m = [c for c in chosen if c[0] == v*F(div)]
        mon.check(len(m) == 1 and m[0][1:3] == (a, b) and (l is None or m[0][3] == l), "manual-tick", lambda: "%s: manual tick %s %r became %r" % (what, v, (a, b, l), m))
        mon.count("manual-ticks")


# ---------------------------------------------------------------- painted graphs
class NotDecodable(Exception): pass
CM = {"CMR": {}, "CMSY": {0: "-", 1: "*"}, "CMMI": {58: ".", 59: ",", 61: "/"}}


def decode(mon, events):
    "labels of a vertical axis: list of (baseline, x, text)"
    out = []
    fam0 = None
    for ev in events:
        if ev.op != "text": continue
        fam = re.match("[A-Z]+", ev.font).group()
        s = ""
        for c in ev.codes:
            if fam == "CMR" and (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122): s += chr(c)
            elif fam == "CMMI" and (65 <= c <= 90 or 97 <= c <= 122): s += chr(c)
            elif c in CM.get(fam, {}): s += CM[fam][c]
            else: raise NotDecodable("%s %r" % (ev.font, c))
        x, y = ev.tm[4], ev.tm[5]
        if ev.size > 9:
            if out and abs(out[-1][0]-y) < 1e-3 and x > out[-1][1]: out[-1][2] += s
            else: out.append([y, x, s])
        else:
            if not out or not 0 < y-out[-1][0] < 8: raise NotDecodable("raised text")
            if not out[-1][3:]: out[-1][2] += "^"; out[-1].append(1)
            out[-1][2] += s
    return [o[:3] for o in out]


def number(s):
    "exact value of a decoded label"
    m = re.fullmatch(r"(-?)(?:([0-9]+(?:\.[0-9]+)?)(?:/([0-9]+))?)", s)
    if m:
        v = F(m.group(2))
        if m.group(3): v /= F(m.group(3))
        return (-v if m.group(1) else v)
    m = re.fullmatch(r"(-?)(?:([0-9]+(?:\.[0-9]+)?)\*)?10\^(-?[0-9]+)", s)
    if m:
        v = F(m.group(2) or 1)*F(10)**int(m.group(3))
        return (-v if m.group(1) else v)
    return None


def painted(rng, mon):
    log = rng.random() < 0.35
    kw = {}
    if log:
        lo = 10**rng.uniform(-6, 6); hi = lo*10**rng.choice([rng.uniform(0.7, 3), rng.uniform(2, 14)])
    else:
        lo = rng.choice([0, rng.uniform(-5, 5), float(rng.randint(-5, 5))])*10**rng.choice([0, 0, 1, 3, 6, -2, -5])
        hi = lo+rng.choice([rng.uniform(0.5, 12), float(rng.randint(1, 10))])*10**rng.choice([0, 0, 1, 3, 6, -2, -5])
        if abs(lo)/(hi-lo) > 1e4: raise Skip      # otherwise rounding errors reach the precision of the parters
        step = 10.0**(math.floor(math.log10(hi-lo))-6)
        lo, hi = round(lo/step)*step, round(hi/step)*step           # no ticks next to the limits
    if rng.random() < 0.4: kw["min"] = lo
    if rng.random() < 0.4: kw["max"] = hi
    if rng.random() < 0.2: kw["reverse"] = 1
    div = 1
    if rng.random() < 0.2: kw["divisor"] = div = rng.choice([2, 10, 1000, 0.5, math.pi])
    t = rng.random()
    suffix = ""
    if t < 0.2: kw["texter"] = texter.decimal(suffix="k", equalprecision=rng.randrange(2)); suffix = "k"
    elif t < 0.35: kw["texter"] = texter.rational(over="%s/%s", equaldenom=rng.randrange(2))
    elif t < 0.6: kw["texter"] = texter.default(minexponent=rng.choice([1, 2, 3]), uniformexponent=rng.randrange(2), skipmantissaunity=rng.choice([0, 1, 2]))
    d = None
    if not log and rng.random() < 0.3:
        d = (F(rng.choice([1, 2, 5]))*F(10)**math.floor(math.log10((hi-lo)/div)-0.5))
        sub = d/rng.choice([1, 2, 5])
        kw["parter"] = parter.linear(tickdists=[rdist(rng, d), rdist(rng, sub)] if sub != d else [rdist(rng, d)])
    man = None
    if rng.random() < 0.2:
        man = F("%.4g" % ((lo+(hi-lo)*rng.uniform(0.1, 0.9))/div))
        if not F(lo) <= man*F(div) <= F(hi): raise Skip
        kw["manualticks"] = [tick.tick((man.numerator, man.denominator), label="Q")]
    size = rng.uniform(3, 12)
    il, ol = rng.choice([(painter.ticklength.normal, None), (painter.ticklength.normal, None), (painter.ticklength.long, painter.ticklength.short), (None, painter.ticklength.Short)])
    kw["painter"] = painter.regular(innerticklength=il, outerticklength=ol)
    what = "%s y axis %r..%r of %g cm, %s" % ("log" if log else "lin", lo, hi, size, sorted((k, [str(x) for x in v] if k == "manualticks" else getattr(v, "kw", v) if k != "texter" else {a: b for a, b in v.__dict__.items() if isinstance(b, (str, int, bool))}) for k, v in kw.items() if k != "painter"))
    mon.describe(what)
    mon.nontrivial(["p", what])
    if rng.random() < 0.3 and not log: axargs = dict([("y_%s" % k if k != "" else k, v) for k, v in kw.items()])
    else: axargs = dict(y=(axis.log if log else axis.lin)(**kw))
    side = rng.choice(["y", "y2"]) if "y" in axargs else "y"
    if side == "y2": axargs = {"y": None, "y2": axargs["y"]}
    x0, y0 = rng.uniform(-3, 3), rng.uniform(-3, 3)
    width = rng.uniform(2, 8)
    old = text.defaulttextengine
    text.defaulttextengine = scene.texengine(rng.choice(["tex", "latex"]))
    try:
        g = graph.graphxy(xpos=x0, ypos=y0, width=width, height=size, x=axis.lin(min=0, max=1, painter=None), **{k: v for k, v in axargs.items() if v is not None})
        g.plot(graph.data.values(x=[0.5, 0.5], y=[lo, hi]) if side == "y" else graph.data.values(x=[0.5, 0.5], y2=[lo, hi]), [graph.style.pos()])
        try: conv = g.axes[side].convert
        except KeyError: raise
        try: conv(lo), conv(hi)
        except (RuntimeError, ValueError) as e:
            if "no axis partitioning" in str(e): raise Skip
            while e is not None and not isinstance(e, axis.axis.NoValidPartitionError): e = e.__context__
            if e is None: raise
            raise Skip
        events = pub.events(g, "pdf")[0]
    finally: text.defaulttextengine = old
    try: labels = decode(mon, events)
    except NotDecodable: mon.count("not-decodable"); raise Skip
    own = (0 if side == "y" else width)*PT + x0*PT
    other = (width if side == "y" else 0)*PT + x0*PT
    Y = lambda v: (y0+conv(float(v))*size)*PT
    # strokes of the ticks
    strokes = {own: {}, other: {}}
    for ev in events:
        if ev.op != "stroke" or len(ev.subs) != 1: continue
        p = [ev.subs[0].start, ev.subs[0].segs[-1].end()]
        if abs(p[0][1]-p[1][1]) > 1e-4: continue
        if abs(p[0][0]-p[1][0]) > 20: continue
        for s in strokes:
            inner = 1 if s == x0*PT else -1
            if min(abs(q[0]-s) for q in p) < 10 :
                a, b = sorted((q[0]-s)*inner for q in p)
                strokes[s][p[0][1]] = (a, b)
    mine = strokes[own]
    lens = sorted(set((round(a, 3), round(b, 3)) for a, b in mine.values()), key=lambda l: -(l[1]-l[0]))
    golden = (math.sqrt(5)-1)/2
    base = [tuple(round(unit.topt(x.select(k, 9)) if x is not None else 0, 3) for x in (ol, il)) for k in range(3)]
    mon.check(all(any(abs(-a-o) < 2e-3 and abs(b-i) < 2e-3 for o, i in base) for a, b in lens), "tick-length", lambda: "%s: ticks reach from %r, expected %r" % (what, lens, base))
    major = {y for y, (a, b) in mine.items() if abs(b-base[0][1]) < 2e-3 and abs(a+base[0][0]) < 2e-3}
    # the linked axis repeats the ticks
    # float divisors become rationals of 10 digits
    ptol = size*PT*1e-8*max(abs(lo), abs(hi))/(hi-lo) if div == math.pi else 0
    if painterlinked(events, other):
        got, want = sorted(strokes[other]), sorted(mine)
        mon.check(len(got) == len(want) and all(abs(a-b) < 1e-3+ptol for a, b in zip(got, want)), "linked-ticks", lambda: "%s: ticks at %r but %r at the linked axis" % (what, want, got))
        mon.count("linked-axes")
    if not labels and d is not None and "min" in kw and "max" in kw and math.ceil(F(lo)/(d*F(div))-F(1, 10**9)) > math.floor(F(hi)/(d*F(div))+F(1, 10**9)):
        mon.count("no-major-tick-inside")
        raise Skip
    mon.check(len(labels) > 0, "labels-none", lambda: "%s: no labels" % what)
    shift = None
    used = []
    for y, x, s in labels:
        at = mine if log else major
        near = min(at, key=lambda m: abs(m-y-2.49)) if at else None
        mon.check(near is not None and abs(near-y-2.49) < 0.1, "label-position", lambda: "%s: label %r at baseline %r next to the tick at %r" % (what, s, y, near))
        used.append(near)
        if man is not None and s == "Q":
            mon.check(abs(Y(man*F(div))-near) < 1e-3, "manual-tick", lambda: "%s: manual tick %s at %r instead of %r" % (what, man, near, Y(man*F(div))))
            mon.count("painted-manual")
            continue
        body = s
        if suffix:
            mon.check(s.endswith(suffix), "label-text", lambda: "%s: label %r without suffix" % (what, s))
            body = s[:-len(suffix)]
        v = number(body)
        mon.check(v is not None, "label-text", lambda: "%s: label %r is no number" % (what, s))
        tol = 2e-3 + (size*PT*1e-8*abs(float(v*F(div)))/(hi-lo) if div == math.pi else 0)
        mon.check((not log or v*F(lo) > 0) and abs(Y(v*F(div))-near) < tol, "label-value", lambda: "%s: the tick at %r is labelled %r, which belongs to %r" % (what, near, s, Y(v*F(div)) if not log or v*F(lo) > 0 else None))
        mon.count("painted-labels")
        mon.count("painted-labels-exponential" if "^" in s else "painted-labels-plain")
    mon.check(len(set(used)) == len(used), "label-position", lambda: "%s: labels %r next to the same tick" % (what, labels))
    mon.check(man is None or any(s == "Q" for _, _, s in labels), "manual-tick", lambda: "%s: the manual tick is missing: labels %r" % (what, labels))
    # ticks are equidistant and none is missing
    if not log:
        py = Y(man*F(div)) if man is not None else None
        ys = sorted(y for y in mine if py is None or abs(y-py) > 1e-3)
        mj = sorted(y for y in major if py is None or abs(y-py) > 1e-3)
        for what2, l in (("ticks", ys), ("major ticks", mj)):
            if len(l) < 3: continue
            gaps = [b-a for a, b in zip(l, l[1:])]
            m = min(gaps)
            if d is not None:
                m = (Y(float((d if l is mj else sub)*F(div)))-Y(0)) if not log else m
                m = abs(m)
            m = (l[-1]-l[0])/round((l[-1]-l[0])/m)
            ok = all(abs(x/m-1) < 1e-3 or (py is not None and abs(x/m-2) < 1e-3 and any(a < py < b and abs((a+b)/2-py) < 1e-2 for a, b in zip(l, l[1:]))) for x in gaps)
            mon.check(ok, "ticks-missing", lambda: "%s: %s at %r are not equidistant" % (what, what2, l))
            for e, q in (((y0*PT), l[0]-m), ((y0+size)*PT, l[-1]+m)):
                inside = y0*PT-2e-5 < q < (y0+size)*PT+2e-5
                mon.check(not inside or (py is not None and abs(q-py) < 1e-2), "ticks-missing", lambda: "%s: %s at %r miss a tick at %r inside the range" % (what, what2, l, q))
            mon.count("equidistant")
        if d is not None: mon.count("given-distance")
    for y in mine: mon.check(y0*PT-1e-2 < y < (y0+size)*PT+1e-2, "tick-outside", lambda: "%s: tick at %r outside of the axis" % (what, y))
    mon.count("painted")


def painterlinked(events, x): return True


PARTS = [(rationals, 10), (merging, 8), (linears, 18), (logs, 14), (autolins, 8), (autologs, 6), (decimals, 14), (defaults, 14), (rats, 10), (rating, 3), (painted, 3)]


def run_case(kind, i, rng, mon):
    if isinstance(kind, str) and kind in DIRECTED: return globals()["d_"+kind](rng, mon)
    scene.TMP[0] = mon.tmp
    rng.choices([p for p, _ in PARTS], [w for _, w in PARTS])[0](rng, mon)


# ---------------------------------------------------------------- directed cases
def d_refuse(rng, mon):
    "invalid numbers are refused"
    for x in ("1.2.3", "1e2e3", "a", "1/2/3", "1.x", "1e", "1e+x", "0x3", (1, 0), "1/0"):
        try: r = tick.rational(x)
        except Exception: mon.count("refused"); continue
        mon.fail("rational-accepted", "rational(%r) is %s" % (x, r))
    for f in ((lambda: axis.lin(manualticks=[tick.tick(1), tick.tick((2, 2))])),):
        try: f()
        except ValueError: mon.count("refused")
        else: mon.fail("duplicate-tick", "equal manual ticks are accepted")


def d_manual(rng, mon):
    "axes without partitioner show the manual ticks only"
    for n in (0, 1, 3):
        p, lp = RecPainter(), LinkPainter()
        old = text.defaulttextengine
        text.defaulttextengine = scene.texengine("tex")
        scene.TMP[0] = mon.tmp
        try:
            g = graph.graphx(length=5, x=axis.lin(min=0, max=4, parter=None, painter=p, linkpainter=lp, manualticks=[tick.tick(3), tick.tick("1/3"), tick.tick(2.5, label="B", ticklevel=None)][:n]))
            g.dolayout()
        finally: text.defaulttextengine = old
        want = sorted([(F(3), 0, 0, "3"), (F(1, 3), 0, 0, "0.\\overline{3}"), (F(5, 2), None, 0, "B")][:n])
        mon.check(p.log[-1][1] == want, "manual-only", lambda: "ticks %r, expected %r" % (p.log[-1][1], want))
        mon.count("manual-only")
