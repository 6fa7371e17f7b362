"""C23: axes map values monotonically onto the unit range.

A random axis is used in a graph (or along a path), data is plotted in random order, and the
mapping seen through convert/pos/tickpoint is compared with an independent model: the range
is inferred from two conversions and judged against the data, the fixed limits, the manual
ticks and the tick distances of the parter; all other values are predicted from it."""
import math, datetime
from fractions import Fraction as F
import geo, gen, scene
from harness import Skip
from pyx import graph, text, path, unit, canvas
from pyx.graph import axis
from pyx.graph.axis import parter, tick, painter, texter, timeaxis

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("random axes of all kinds (linear, logarithmic positive and negative, bar, nested bar, split, sized, autosized, time) with fixed/automatic/reversed/fallback ranges, "
        "divisors, parters with and without extension, manual ticks, painted by TeX or unpainted, in 2d, flipped, 1d, 3d graphs and along paths, with data in any order in "
        "several plots, linked axes inside and across graphs; the mapping is compared with an independent model; distinct by axis description and data")
QUICK, THOROUGH = 5000, 400000
CPU = 120
REQUIRED = {"axis": 600, "axis-bar": 110, "axis-lin": 800, "axis-log": 200, "axis-log-neg": 90, "axis-nestedbar": 35, "axis-on-path": 15, "axis-split": 130, "axis-time": 110, "call": 2, "fallback": 110, "fixed-max": 340, "fixed-min": 350, "graph-1d": 90, "graph-3d": 65, "late-data": 40, "linked": 3400, "linked-graph": 600, "outside-refused": 1000, "painted": 70, "path-points": 60, "pos": 2300, "range-by-manual-tick": 140, "range-extended": 370, "range-of-data": 530, "reversed": 420, "shortcuts": 580, "subaxes": 550, "tickpoints": 2100, "values": 15000}
DIRECTED = ["call", "vtick", "zero", "invisible"]
ASSUMPTIONS = ["the automatic partition may be any of the offered tick distances here; which one is best rated is decided by C24"]
PT = gen.PT
EPS = 2.3e-16


def close(mon, a, b, tol, mech, msg):
    mon.check(abs(a-b) <= tol, mech, lambda: "%s: %r != %r (tolerance %g)" % (msg, a, b, tol))


def textof(rng):
    return rng.choice([None, None, "quantity"])


# ---------------------------------------------------------------- leaf axes
class Leaf:
    xtol = 0
    "an axis with a continuous range"

    def __init__(self, rng, sized=None, simple=False, painted=False, kind=None):
        self.kind = kind or rng.choice(["lin", "lin", "lin", "log", "log"])
        self.kw = kw = {}
        self.neg = False
        self.sized = sized
        scale = 10.0**rng.choice([0, 0, 0, 1, 2, 3, 6, -1, -3, -6, -9])
        if self.kind == "lin":
            off = rng.choice([0, 0, rng.uniform(-3, 3), rng.uniform(-1, 1)*10**rng.randint(1, 7)])*scale
            self.rv = lambda: off + rng.choice([rng.uniform(0, 1), rng.uniform(-1, 1), round(rng.uniform(-5, 5)), round(rng.uniform(-2, 2), 1)])*scale
        else:
            self.neg = rng.random() < 0.3
            sg = -1 if self.neg else 1
            dec = rng.choice([0.3, 1, 2, 3, 5, 12, 30])
            self.rv = lambda: sg*scale*rng.choice([10**rng.uniform(-dec, dec), 10.0**round(rng.uniform(-dec, dec)), rng.choice([1, 2, 5, 9])*10.0**round(rng.uniform(-dec, dec))])
        self.min = self.max = None
        self.reverse = 0
        self.fallback = None
        r = rng.random()
        if r < 0.45:
            a, b = self.rv(), self.rv()
            while a == b: b = self.rv()
            if not (r < 0.08): a, b = min(a, b), max(a, b)      # otherwise possibly exchanged limits
            if r < 0.2: self.min, self.max = a, b
            elif r < 0.33: self.min = a
            else: self.max = b
            if self.min is not None: kw["min"] = self.min
            if self.max is not None: kw["max"] = self.max
        if rng.random() < 0.3: kw["reverse"] = self.reverse = rng.choice([1, True])
        if self.min is not None and self.max is not None and self.min > self.max:
            self.min, self.max, self.reverse = self.max, self.min, not self.reverse
        self.divisor = None
        if rng.random() < 0.15:
            self.divisor = rng.choice([math.pi, 2, 1000, 0.001, 7, 0.5])
            kw["divisor"] = self.divisor
        # partition
        self.extend = "auto"
        if simple or rng.random() < 0.2:
            kw["parter"] = None
            self.extend = None
        elif sized == "auto":
            self.extend = None
        elif rng.random() < 0.5:
            if self.kind == "lin":
                r = rng.random()
                if r < 0.4:
                    kw["parter"] = parter.autolin(extendtick=None)
                    self.extend = None
                elif r < 0.6:
                    v = rng.choice([[[tick.rational((1, 1))], [tick.rational((3, 1))]], [["1", "0.25"], ["3", "1"]], [[tick.rational((1, 1)), tick.rational((1, 3))]]])
                    kw["parter"] = parter.autolin(variants=v, extendtick=rng.choice([0, 0, 1]))
                    self.extend = ("auto", [[F(str(d)) if isinstance(d, str) else F(d.num, d.denom) for d in x] for x in v], kw["parter"].extendtick)
                else:
                    self.extend = "fixed"       # with the tick distance chosen from the data
            else:
                r = rng.random()
                if r < 0.4:
                    kw["parter"] = parter.autolog(extendtick=None)
                    self.extend = None
                else:
                    ps = [[1], [1, 2, 5], list(range(1, 10)), [1, 3], [1, F(5, 2), 5]][rng.randrange(5)]
                    base = rng.choice([10, 10, 10, 2, 100]) if ps == [1] else 10
                    pre = parter.preexp([tick.rational((F(p).numerator, F(p).denominator)) for p in ps], base)
                    ext = rng.choice([0, 0, 0, None, 1])
                    pres = [pre] if rng.random() < 0.5 else [pre, parter.log.pre1to9exp]
                    how = rng.choice(["tick", "tick", "both"])
                    if how == "tick": kw["parter"] = parter.log(tickpreexps=pres, extendtick=ext)
                    else: kw["parter"] = parter.log(tickpreexps=pres, labelpreexps=[pre], extendtick=ext)
                    bases = [(ps, base), (list(range(1, 10)), 10)]
                    self.extend = None if ext is None or ext >= len(pres) else ("log",)+bases[ext]
                    if len(pres) > 1: self.extendticks = bases
        self.manual = []
        self.painted = painted
        self.title = textof(rng) if painted else None
        self.rng = rng

    def prepare(self, data):
        "choose parameters depending on the data; build the pyx axis"
        rng, kw = self.rng, self.kw
        nums = [v for v in data if isinstance(v, (int, float)) and v == v]
        lo = self.min if self.min is not None else min(nums) if nums else None
        hi = self.max if self.max is not None else max(nums) if nums else None
        if lo is None or hi is None: raise Skip
        if lo > hi: raise Skip          # a fixed limit beyond all data
        self.data = nums
        # values must not be too close for the number of significant digits
        if lo != hi and (hi-lo) < 1e-9*max(abs(lo), abs(hi)): raise Skip
        if self.kind == "log" and lo != hi and abs(math.log(hi/lo)) < 1e-8: raise Skip
        self.lo, self.hi = lo, hi
        if lo == hi:
            r = rng.random()
            sc = abs(lo) or 1
            if r < 0.5 and self.kind == "lin" :
                self.fallback = sc*rng.choice([1, 0.1, 2.5])
                self.lo, self.hi = lo-0.5*self.fallback, lo+0.5*self.fallback
                if self.min is not None and self.max is None: self.lo, self.hi = lo, lo+self.fallback
                if self.max is not None and self.min is None: self.lo, self.hi = lo-self.fallback, lo
                kw["fallbackrange"] = self.fallback
            elif self.sized == "auto": raise Skip
            elif self.min is not None or self.max is not None: raise Skip
            else:
                self.lo, self.hi = (lo-rng.uniform(0, 1)*sc*0.9, lo+rng.uniform(0.1, 1)*0.9*sc)
                kw["fallbackrange"] = (self.lo, self.hi)
            if self.sized == "auto": raise Skip     # the size is that of the data range
        div = self.divisor or 1
        if self.extend == "fixed":
            span = F(self.hi/div)-F(self.lo/div)
            d = F(rng.choice([1, 2, 3, 5, F(5, 2), F(1, 3), F(1, 7)]))*F(10)**int(round(math.log10(span)-rng.choice([0, 0.5, 1])))
            ext = rng.choice([0, 0, None, 1])
            dists = [d] if rng.random() < 0.4 else [d, d/rng.choice([2, 4, 5])]
            def give(x):
                r = rng.random()
                if r < 0.4 : return tick.rational((x.numerator, x.denominator))
                if r < 0.8 : return "%d/%d" % (x.numerator, x.denominator)
                return x
            kw["parter"] = parter.lin(tickdists=list(map(give, dists)), extendtick=ext)
            self.extend = None if ext is None or ext >= len(dists) else ("lin", dists[ext])
        if rng.random() < 0.2 and self.sized != "auto":
            for _ in range(rng.randint(1, 3)):
                if self.kind == "lin": v = F(str(round(rng.uniform(-0.4, 1.4), 3)))*(F(self.hi/div)-F(self.lo/div)) + F(self.lo/div)
                else:
                    a, b = math.log(abs(self.lo/div)), math.log(abs(self.hi/div))
                    v = F("%.4g" % ((-1 if self.neg else 1)*math.exp(a + rng.uniform(-0.4, 1.4)*(b-a))))
                if not self.kind == "log" or (v != 0 and (v < 0) == self.neg):
                    self.manual.append(v)
            self.manual = sorted(set(self.manual))
            kw["manualticks"] = [tick.tick((v.numerator, v.denominator), ticklevel=rng.choice([0, 1, None]), labellevel=rng.choice([0, 1, None]) if self.painted else None) for v in self.manual]
            rng.shuffle(kw["manualticks"])
        if self.painted:
            if self.title: kw["title"] = self.title
            if rng.random() < 0.2: kw["painter_innerticklength"] = painter.ticklength.short
        else:
            kw["painter"] = None
        self.want_extended = rng.random() < 0.7

    def build(self):
        rng = self.rng
        cls = {None: {"lin": rng.choice([axis.lin, axis.linear]), "log": rng.choice([axis.log, axis.logarithmic])}[self.kind],
               "auto": rng.choice([axis.autosizedlin, axis.autosizedlinear])}.get(self.sized)
        kw = dict(self.kw)
        if cls is None:
            cls = rng.choice([axis.sizedlin, axis.sizedlinear])
            kw["size"] = self.sized
        if rng.random() < 0.2 and len(kw) > 1:
            later = dict([kw.popitem()])
            return cls(**kw)(**later)           # altering the parameters of an existing axis
        return cls(**kw)

    def check(self, mon, conv, what, strict=True):
        """judge the mapping conv and return the exact-as-possible model function value -> position"""
        lo, hi = self.lo, self.hi
        if self.kind == "lin":
            fw, bw = (lambda x: x), (lambda y: y)
            L = F
        else:
            s = -1 if self.neg else 1
            L = lambda x: F(s*math.log(s*x))
        if self.kind == "log" and self.neg:
            fw = None
        a, b = conv(lo), conv(hi)
        la, lb = L(lo), L(hi)
        mon.check(math.isfinite(a) and math.isfinite(b), "range-end", lambda: "%s: positions %r, %r of the data range" % (what, a, b))
        mon.check(a > b if self.reverse else a < b, "direction", lambda: "%s: reverse=%r but %r -> %r and %r -> %r" % (what, self.reverse, lo, a, hi, b))
        if self.reverse: a, b = 1-a, 1-b
        slope = (F(b)-F(a))/(lb-la)
        la0 = la - F(a)/slope           # the value mapped to 0 (in L)
        lb1 = lb + (1-F(b))/slope
        ulp = EPS*float(max(abs(la0), abs(lb1), abs(la), abs(lb)))       # rounding of the values themselves
        span = float(lb1-la0)
        tol = 8*ulp/span + 1e-11 + self.xtol
        if self.divisor: tol += 3e-10*float(max(abs(la0), abs(lb1)))/span if self.kind == "lin" else 3e-10/span       # float divisors are converted to 10 digits
        mon.track("relative-rounding", ulp/span)
        # the range includes the requested one and data; fixed limits are kept
        slack = 2e-10
        mon.check(a >= -slack*(1 if self.extend else 0)-tol and b <= 1+slack*(1 if self.extend else 0)+tol, "range-shrunk", lambda: "%s: range %r..%r is mapped to %r..%r" % (what, lo, hi, a, b))
        fixlo = self.min is not None
        fixhi = self.max is not None
        if fixlo: close(mon, a, 0, tol, "fixed-min", "%s: position of the fixed minimum %r" % (what, self.min)); mon.count("fixed-min")
        if fixhi: close(mon, b, 1, tol, "fixed-max", "%s: position of the fixed maximum %r" % (what, self.max)); mon.count("fixed-max")
        div = F(self.divisor) if self.divisor else F(1)
        man = [v*div for v in self.manual]
        mlo, mhi = F(lo) if fixlo else min([F(lo)]+man), F(hi) if fixhi else max([F(hi)]+man)
        # candidates for the ends (exact values)
        self.coarse = False
        ends = self.candidates(F(lo)/div, F(hi)/div, fixlo, fixhi)
        ok = False
        best = None
        for clo, chi in ends:
            clo = F(lo) if fixlo else min(mlo, clo*div)
            chi = F(hi) if fixhi else max(mhi, chi*div)
            if self.kind == "log" and not (clo*chi > 0): continue
            try: d = max(abs(float(L(float(clo))-la0)), abs(float(L(float(chi))-lb1)))/span if self.kind == "log" else max(abs(float(clo-la0)), abs(float(chi-lb1)))/span
            except OverflowError: continue
            if self.coarse and float(clo) <= float(la0)+tol*span and float(la0) <= float(mlo)+tol*span and float(lb1) <= float(chi)+tol*span and float(mhi) <= float(lb1)+tol*span: d = 0
            if best is None or d < best[0]: best = (d, float(clo), float(chi))
        rtol = tol*4 + (1e-9 if self.divisor else 1e-10)
        mon.check(best is not None and best[0] <= rtol, "range", lambda: "%s: data %r..%r (min %r max %r manual %s) mapped to %r..%r, i.e. the range is %r..%r (%s); nearest admissible range %r (off by %g)" %
                  (what, lo, hi, self.min, self.max, [float(m) for m in man], a, b, float(la0), float(lb1), self.kind, best and best[1:], best[0] if best else -1))
        if not fixlo or not fixhi:
            mon.count("range-extended" if (best[1] < float(mlo) or best[2] > float(mhi)) else "range-of-data")
        if man and (mlo < F(lo) or mhi > F(hi)): mon.count("range-by-manual-tick")
        if self.fallback or "fallbackrange" in self.kw: mon.count("fallback")
        if self.reverse: mon.count("reversed")
        model = lambda x: float((1-(L(x)-la0)*slope) if self.reverse else (L(x)-la0)*slope)
        # everything in between
        vals = sorted(set(self.data + [self.rv() for _ in range(6)] + [lo + (hi-lo)*t/7 for t in range(1, 7)]))
        if strict: vals = [v for v in vals if la0 <= L(v) <= lb1]
        prev = None
        for v in vals:
            got = conv(v)
            ptol = tol + 16*EPS*abs(float(L(v)))/span + 2e-12*abs(got)
            close(mon, got, model(v), ptol, "mapping", "%s: position of %r in %r..%r" % (what, v, lo, hi))
            if prev is not None and abs(float(L(v)-L(prev[0]))) > 8*ulp:
                mon.check((got < prev[1]) if self.reverse else (got > prev[1]), "monotone", lambda: "%s: %r -> %r but %r -> %r" % (what, prev[0], prev[1], v, got))
            prev = (v, got)
        mon.count("values", len(vals))
        mon.count("axis-%s%s" % (self.kind, "-neg" if self.neg else ""))
        return model

    def candidates(self, lo, hi, fixlo, fixhi):
        "admissible ranges (in units of the divisor) resulting from the extension by the parter"
        e = self.extend
        def lincand(d):
            res = []
            # float rounding may move a limit being (nearly) a tick by one tick
            u = F(1, 10**9) + F(4*EPS)*max(abs(lo), abs(hi))/d
            ls = {math.floor(lo/d-u)*d, math.floor(lo/d+u)*d}
            hs = {math.ceil(hi/d-u)*d, math.ceil(hi/d+u)*d}
            # the first tick is missed when its rounding error is beyond the epsilon of the parter; the range then ends at a tick of another level
            if F(EPS)*max(abs(lo), abs(hi))/d > F(1, 10**11): self.coarse = True
            for l in ls:
                for h in hs: res.append((min(lo, l), max(hi, h)))
            return res
        def logcand(ps, base):
            res = []
            neg = hi < 0
            l, h = (-hi, -lo) if neg else (lo, hi)
            u = 1+F(1, 10**9)
            ticks = set()
            k0 = int(math.floor(math.log(l)/math.log(base)))-2
            k1 = int(math.ceil(math.log(h)/math.log(base)))+2
            ticks = sorted(F(p)*F(base)**k for p in ps for k in range(k0, k1+1))
            for ll in {max(t for t in ticks if t <= l*u), max(t for t in ticks if t <= l/u)}:
                for hh in {min(t for t in ticks if t >= h/u), min(t for t in ticks if t >= h*u)}:
                    ll_, hh_ = min(ll, l), max(hh, h)
                    res.append((-hh_, -ll_) if neg else (ll_, hh_))
            return res
        if e is None: return [(lo, hi)]
        if e == "auto" and self.kind == "lin":
            e = ("auto", [[F(1)], [F(2)], [F(5, 2)], [F(5)]], 0)
        if e == "auto":
            res = [(lo, hi)]
            for n in range(1, 20):
                res += logcand([1], 10**n)
                if F(10)**n > F(10)*max(abs(hi/lo), abs(lo/hi), 100): break
            return res
        if e[0] == "lin": return lincand(e[1])
        if e[0] == "log": return logcand(e[1], e[2])
        if e[0] == "auto":
            res = []
            span = hi-lo
            k0 = int(math.floor(math.log10(span)))
            for v in e[1]:
                if e[2] >= len(v): res.append((lo, hi)); continue
                for k in range(k0-4, k0+4):
                    d = v[e[2]]*F(10)**k
                    if span/60 < d < (100 if self.painted else F(5, 2))*span: res += lincand(d)
            return res

    def describe(self):
        return "%s %s size=%s" % (self.kind, sorted((k, str(v) if not isinstance(v, list) else [str(x) for x in v]) for k, v in self.kw.items()), self.sized)

    def values(self, rng, n):
        return [self.rv() for _ in range(n)]


class Time(Leaf):
    def __init__(self, rng, painted=False):
        self.rng = rng
        self.sized = None
        self.kind = "time"
        t0 = datetime.datetime(rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59))
        sc = rng.choice([1e-4, 1, 3600, 86400, 86400*365, 86400*3650])
        self.rv = lambda: t0 + datetime.timedelta(seconds=rng.uniform(-1, 1)*sc)
        self.t0 = t0
        self.kw = {}
        self.min = self.max = None
        self.reverse = 0
        self.painted = painted
        r = rng.random()
        if r < 0.4:
            a, b = self.rv(), self.rv()
            if a == b: raise Skip
            if not r < 0.08: a, b = min(a, b), max(a, b)
            if r < 0.2: self.min, self.max = a, b
            elif r < 0.3: self.min = a
            else: self.max = b
            if self.min is not None: self.kw["min"] = self.min
            if self.max is not None: self.kw["max"] = self.max
        if rng.random() < 0.3: self.kw["reverse"] = self.reverse = 1
        if self.min is not None and self.max is not None and self.min > self.max:
            self.min, self.max, self.reverse = self.max, self.min, not self.reverse
        self.manual = []

    def prepare(self, data):
        data = [d for d in data if isinstance(d, datetime.datetime)]
        rng = self.rng
        self.data = data
        lo = self.min if self.min is not None else min(data) if data else None
        hi = self.max if self.max is not None else max(data) if data else None
        if lo is None or hi is None or lo > hi: raise Skip
        if lo == hi:
            fb = datetime.timedelta(seconds=rng.uniform(1, 1e5))
            self.kw["fallbackrange"] = fb
            if self.min is not None and self.max is None: hi = lo+fb
            elif self.max is not None and self.min is None: lo = hi-fb
            else: lo, hi = lo-0.5*fb, lo+0.5*fb
        self.lo, self.hi = lo, hi
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)):
                self.manual.append(lo + (hi-lo)*rng.uniform(-0.4, 1.4))
            self.kw["manualticks"] = [timeaxis.timetick(t.year, t.month, t.day, hour=t.hour, minute=t.minute, second=t.second, microsecond=t.microsecond) for t in sorted(set(self.manual))]
        self.kw["texter"] = timeaxis.timetexter(rng.choice(["%H:%M", "%d.%m.%Y", "%Y"]))
        if not self.painted: self.kw["painter"] = None

    def build(self): return timeaxis.timeaxis(**self.kw)

    def check(self, mon, conv, what, strict=True):
        lo = self.min if self.min is not None else min([self.lo]+self.manual)
        hi = self.max if self.max is not None else max([self.hi]+self.manual)
        us = lambda td: F(td.microseconds + 1000000*(td.seconds + 86400*td.days))
        span = us(hi-lo)
        if not span: raise Skip
        model = lambda v: float(us(hi-v)/span if self.reverse else us(v-lo)/span)
        for v in self.data + [lo, hi] + [self.rv() for _ in range(4)]:
            close(mon, conv(v), model(v), 1e-12*(1+abs(model(v))), "mapping", "%s: position of %s in %s..%s" % (what, v, lo, hi))
        mon.count("values", len(self.data)+6)
        mon.count("axis-time")
        if self.reverse: mon.count("reversed")
        if lo < self.lo or hi > self.hi: mon.count("range-by-manual-tick")
        return model


# ---------------------------------------------------------------- composite axes
NAMES = ["a", "b", "c", "Januar", 1, 2, 3.5, ("t", 1), "x y", "0"]


class Bar:
    def __init__(self, rng, kind=None, painted=False, depth=0):
        self.rng = rng
        self.kind = kind = kind or rng.choice(["bar", "bar", "nestedbar", "split", "split"])
        self.kw = kw = {}
        self.dist = 0.5
        self.reverse = 0
        if kind == "nestedbar":
            pass
        if rng.random() < 0.5: kw["dist"] = self.dist = rng.choice([0, 0.1, 1, rng.uniform(0, 2)])
        self.first = self.last = 0.5*self.dist
        if kind == "split": self.first = self.last = 0
        if rng.random() < 0.3: kw["firstdist"] = self.first = rng.choice([0, rng.uniform(0, 1)])
        if rng.random() < 0.3: kw["lastdist"] = self.last = rng.choice([0, rng.uniform(0, 1)])
        if rng.random() < 0.25: kw["reverse"] = self.reverse = 1
        n = rng.randint(1, 4)
        self.painted = painted
        usable = NAMES if not painted else ["a", "b", "c", "Januar", 1, 2, 3.5]
        self.names = rng.sample(usable, n)
        self.explicit = kind == "split" or rng.random() < 0.4
        self.subs = {}
        self.skipped = None
        if kind == "split" and rng.random() < 0.5: self.names = list(range(n))
        for i, nm in enumerate(self.names):
            if kind == "split":
                lk = "lin" if rng.random() < 0.8 else "log"
                s = Leaf(rng, sized=rng.choice([None, None, rng.uniform(0.3, 3), "auto"]) if lk == "lin" else None, painted=painted, kind=lk)
            elif self.explicit:
                s = Leaf(rng, sized=rng.choice([None, rng.uniform(0.3, 3)]), painted=painted and rng.random() < 0.5, kind="lin")
            elif kind == "nestedbar":
                s = Bar(rng, kind="bar", painted=False, depth=depth+1)
                # the default sub axis
                s.kw, s.dist, s.first, s.last, s.reverse, s.explicit = {"dist": 0}, 0, 0, 0, 0, False
                for x in s.names:
                    s.subs[x] = self.plain()
            else:
                s = self.plain()
            self.subs[nm] = s

    def plain(self):
        s = Leaf(self.rng, simple=True, kind="lin")
        s.kw, s.min, s.max, s.reverse, s.divisor, s.extend = {}, None, None, 0, None, None
        s.plain = True
        return s

    def values(self, rng, n):
        res = []
        for _ in range(n):
            nm = rng.choice(self.names)
            s = self.subs[nm]
            if nm == self.skipped: res.append((nm, 1)); continue
            res.append((nm, s.values(rng, 1)[0]))
        if rng.random() < 0.2: res.insert(rng.randrange(len(res)+1), (None, 3))
        return res

    def prepare(self, data):
        rng = self.rng
        self.order = []
        for v in data:
            if v[0] is not None and v[0] not in self.order: self.order.append(v[0])
        if not self.order: raise Skip
        self.prepsubs([v for v in data if v[0] is not None])
        sub = {}
        for nm in self.names:
            if nm in self.order: sub[nm] = self.subs[nm]
        if not self.painted: self.kw["painter"] = None
        elif rng.random() < 0.3: self.kw["title"] = "bars"
        self.data = data

    def prepsubs(self, data):
        for nm in self.order:
            s = self.subs[nm]
            s.prepare([v[1] for v in data if v[0] == nm])
            if getattr(s, "plain", False):
                if isinstance(s, Leaf) and (s.kw.get("fallbackrange") is not None or s.manual): raise Skip

    def build(self):
        rng = self.rng
        kw = dict(self.kw)
        if self.explicit:
            sub = {nm: self.subs[nm].build() for nm in self.order}
            if self.kind == "split" and self.names == list(range(len(self.names))) and len(self.order) == len(self.names) and rng.random() < 0.5:
                kw["subaxes"] = [sub[i] for i in range(len(self.names))]
            else:
                kw["subaxes"] = sub
        return {"bar": axis.bar, "nestedbar": axis.nestedbar, "split": axis.split}[self.kind](**kw)

    def size(self, s):
        if isinstance(s, Bar): return s.total()
        if s.sized is None: return 1
        if s.sized == "auto": return s.hi-s.lo
        return s.sized

    def total(self):
        return self.first+self.last+self.dist*(len(self.order)-1)+sum(self.size(self.subs[n]) for n in self.order)

    def check(self, mon, conv, what, strict=True):
        tot = self.total()
        pos = self.first
        order = self.order[::-1] if self.reverse else self.order
        mon.check(tot > 0, "oracle", "no size")
        model = {}
        for nm in order:
            s = self.subs[nm]
            w = self.size(s)
            v0, v1 = pos/tot, (pos+w)/tot
            if w/tot < 1e-3: raise Skip
            if True:
                # the sizes of autosized axes are added and subtracted
                s.xtol = 2e-15*(1+tot+self.dist*len(order))/w
                m = s.check(mon, lambda v: (conv((nm, v))-v0)/(v1-v0), "%s, subaxis %r at %.4f..%.4f" % (what, nm, v0, v1))
                model[nm] = (v0, v1, m)
                mon.count("subaxes")
                # values outside of the subaxis are refused
                if isinstance(s, Leaf) and s.kind in ("lin", "log") and mon is not None:
                    for f in (-0.5, 1.5):
                        lo, hi = s.lo, s.hi
                        v = lo + f*(hi-lo)*100 if s.kind == "lin" else (lo*1e-30 if (f < 0) != s.neg else lo*1e30)
                        if s.kind == "log" and s.neg: v = lo*1e30 if f < 0 else hi*1e-30
                        p = m(v)
                        if -0.01 < p < 1.01: continue
                        try: got = conv((nm, v))
                        except ValueError: mon.count("outside-refused"); continue
                        mon.fail("outside", "%s: value %r far outside of the subaxis is placed at %r" % (what, (nm, v), got))
            pos += w+self.dist
        try: got = conv((None, 0))
        except (ValueError, KeyError): pass
        else: mon.fail("none-name", "%s: a value without name is placed at %r" % (what, got))
        mon.count("axis-"+self.kind)
        if self.reverse: mon.count("reversed")
        return lambda v: model[v[0]][0] + (model[v[0]][1]-model[v[0]][0])*model[v[0]][2](v[1])

    def describe(self):
        return "%s %s %s" % (self.kind, sorted((k, str(v)) for k, v in self.kw.items()), [(n, self.subs[n].describe()) for n in self.order])


def make(rng, painted):
    r = rng.random()
    if r < 0.55: return Leaf(rng, painted=painted)
    if r < 0.65: return Time(rng, painted=painted)
    return Bar(rng, painted=painted)


def junk(rng, vals):
    "missing values are ignored"
    vals = list(vals)
    if rng.random() < 0.2: vals.insert(rng.randrange(len(vals)+1), rng.choice([None, "-", "n/a"]))
    return vals


class W:
    "a wanted axis with its data"
    def __init__(self, rng, painted=False):
        self.m = make(rng, painted)
        n = rng.choice([0, 1, 2, 3, 3, 5, 8, 20]) if not isinstance(self.m, Bar) else rng.randint(1, 14)
        self.vals = self.m.values(rng, n) if not isinstance(self.m, Time) else [self.m.rv() for _ in range(n)]
        self.m.prepare(self.vals)
        if not isinstance(self.m, Bar): self.plot = junk(rng, self.vals)
        else: self.plot = self.vals
        self.axis = self.m.build()


def chunks(rng, xs, ys):
    "plots with columns of equal length; the shorter column is filled up by its own values"
    n = max(len(xs), len(ys))
    if not n: return []
    if not xs or not ys:
        return None
    xs = xs + [rng.choice(xs) for _ in range(n-len(xs))]
    ys = ys + [rng.choice(ys) for _ in range(n-len(ys))]
    k = sorted(rng.randrange(n+1) for _ in range(rng.randint(0, 3)))
    cuts = [0]+k+[n]
    return [(xs[a:b], ys[a:b]) for a, b in zip(cuts, cuts[1:]) if a < b]


def run_case(kind, i, rng, mon):
    if kind == "directed" or isinstance(kind, str) and kind in DIRECTED: return globals()["d_"+kind](rng, mon)
    scene.TMP[0] = mon.tmp
    painted = rng.random() < 0.15
    if painted:
        old = text.defaulttextengine
        text.defaulttextengine = scene.texengine(rng.choice(["tex", "latex"]))
        try: inner(i, rng, mon, True)
        except (axis.axis.NoValidPartitionError, ValueError) as e:
            # the labels do not fit
            while e is not None and not isinstance(e, axis.axis.NoValidPartitionError): e = e.__context__
            if e is None: raise
            mon.count("labels-do-not-fit")
            raise Skip
        except RuntimeError as e:
            if "no axis partitioning" in str(e):
                mon.count("no-ticks")
                raise Skip
            raise
        finally: text.defaulttextengine = old
    else:
        try: inner(i, rng, mon, False)
        except RuntimeError as e:
            if "no axis partitioning" in str(e):
                # no tick within the range
                mon.count("no-ticks")
                raise Skip
            raise
    mon.count("painted" if painted else "unpainted")


def inner(i, rng, mon, painted):
    t = rng.random()
    if t < 0.12: return onpath(rng, mon, painted)
    wx, wy = W(rng, painted), W(rng, painted and rng.random() < 0.5)
    dim = rng.choice([2, 2, 2, 2, 1, 3])
    mon.describe("%dd x=%s data=%r y=%s data=%r" % (dim, wx.m.describe(), wx.plot, wy.m.describe(), wy.plot))
    width, height = rng.uniform(2, 15), rng.uniform(2, 15)
    x0, y0 = rng.choice([0, rng.uniform(-5, 5)]), rng.choice([0, rng.uniform(-5, 5)])
    key = [wx.m.describe(), wy.m.describe(), repr(wx.plot), repr(wy.plot), dim]
    mon.nontrivial(key)
    if dim == 1:
        direction = rng.choice(["horizontal", "vertical"])
        g = graph.graphx(xpos=x0, ypos=y0, length=width, direction=direction, x=wx.axis)
        if wx.plot:
            for c in chunks(rng, wx.plot, [0]): g.plot(graph.data.values(x=c[0]), [graph.style.pos()])
        elif not fixed(wx.m): raise Skip
        model = wx.m.check(mon, g.axes["x"].convert, "x axis of 1d graph", strict=True)
        mon.count("graph-1d")
        probe(rng, mon, g, "x", wx, model, x0, y0, width if direction == "horizontal" else None, width if direction == "vertical" else None, oned=direction)
        return
    if dim == 3:
        wz = W(rng, False)
        mon.nontrivial(key + [wz.m.describe(), repr(wz.plot)])
        proj = rng.choice([graph.graphxyz.central(10, -20, 30), graph.graphxyz.parallel(-50, 25)])
        g = graph.graphxyz(size=5, projector=proj, x=wx.axis, y=wy.axis, z=wz.axis)
        n = max(len(wx.plot), len(wy.plot), len(wz.plot))
        if n:
            if not (wx.plot and wy.plot and wz.plot): raise Skip
            cols = [c + [rng.choice(c) for _ in range(n-len(c))] for c in (wx.plot, wy.plot, wz.plot)]
            g.plot(graph.data.values(x=cols[0], y=cols[1], z=cols[2]), [graph.style.symbol()])
        elif not (fixed(wx.m) and fixed(wy.m) and fixed(wz.m)): raise Skip
        for nm, w in (("x", wx), ("y", wy), ("z", wz)):
            w.m.check(mon, g.axes[nm].convert, "%s axis of 3d graph" % nm)
        mon.count("graph-3d")
        return
    flipped = rng.random() < 0.2
    kw = {}
    xname, yname = ("x", "y")
    if rng.random() < 0.25: xname, kw["x"] = "x2", None
    if rng.random() < 0.25: yname, kw["y"] = "y2", None
    for n in ("x", "y"): kw.pop(n, None)
    kw.update({xname: wx.axis, yname: wy.axis})
    g = graph.graphxy(xpos=x0, ypos=y0, width=width, height=height, flipped=flipped, **kw)
    cs = chunks(rng, wx.plot, wy.plot)
    if cs is None:
        raise Skip
    if not cs and not (fixed(wx.m) and fixed(wy.m)): raise Skip
    order = list(cs)
    for c in order:
        d = graph.data.values(x=c[0], y=c[1]) if rng.random() < 0.7 else graph.data.points(list(zip(*c)), x=1, y=2)
        g.plot(d, [rng.choice([graph.style.symbol, graph.style.line])()])
    if rng.random() < 0.5: first, second = (xname, wx), (yname, wy)
    else: first, second = (yname, wy), (xname, wx)
    models = {}
    for nm, w in (first, second):
        models[nm] = w.m.check(mon, g.axes[nm].convert, "%s axis" % nm)
        mon.count("axis")
    probe(rng, mon, g, xname, wx, models[xname], x0, y0, width, height, flipped)
    probe(rng, mon, g, yname, wy, models[yname], x0, y0, width, height, flipped)
    # the other side is linked
    for nm, w in ((xname, wx), (yname, wy)):
        o = nm[0] if nm.endswith("2") else nm+"2"
        for v in datavals(w):
            close(mon, g.axes[o].convert(v), g.axes[nm].convert(v), 0, "linked", "position of %r on axis %s linked to %s" % (v, o, nm))
            mon.count("linked")
    # pos
    for vx in datavals(wx)[:4]:
        for vy in datavals(wy)[:2]:
            got = g.pos_pt(vx, vy)
            px, py = models[xname](vx), models[yname](vy)
            if flipped: px, py = py, px
            tol = 1e-5*max(width, height)*28
            want = ((x0+px*width)*PT, (y0+py*height)*PT)
            mon.check(math.dist(got, want) <= 1e-6*(1+math.dist(want, (0, 0)))+tol*1e-3, "pos", lambda: "pos(%r, %r) is %r, expected %r" % (vx, vy, got, want))
            mon.count("pos")
    # a further graph with a linked axis, and late data is ignored
    if rng.random() < 0.4 and not painted:
        g2 = graph.graphxy(width=3, height=3, x=graph.axis.linkedaxis(g.axes[xname]), y=axis.lin(min=0, max=1, painter=None))
        for v in datavals(wx):
            close(mon, g2.axes["x"].convert(v), g.axes[xname].convert(v), 0, "linked", "position of %r on an axis linked to the axis of another graph" % (v,))
            mon.count("linked-graph")
        if isinstance(wx.m, Leaf) and wx.m.kind == "lin":
            import logging
            lg = logging.getLogger("pyx"); lv = lg.level; lg.setLevel(logging.ERROR)
            before = [g.axes[xname].convert(v) for v in datavals(wx)]
            g2.plot(graph.data.values(x=[wx.m.lo-abs(wx.m.lo)-1, wx.m.hi+abs(wx.m.hi)+1], y=[0, 1]), [graph.style.line()])
            g2.doranges()
            lg.setLevel(lv)
            for v, b in zip(datavals(wx), before):
                close(mon, g2.axes["x"].convert(v), b, 0, "late-data", "position of %r after further data on the linked axis of another graph" % (v,))
                close(mon, g.axes[xname].convert(v), b, 0, "late-data", "position of %r after further data on the linked axis of another graph" % (v,))
            mon.count("late-data")


def fixed(m):
    return not isinstance(m, Bar) and m.min is not None and m.max is not None


def datavals(w):
    m = w.m
    if isinstance(m, Bar):
        return [v for v in w.vals if v[0] is not None and inside(m, v)][:6]
    vals = list(m.data)[:6]
    if m.kind == "time": return vals+[m.lo, m.hi]
    return vals + [m.lo, m.hi]


def inside(m, v):
    if v[0] is None: return False
    s = m.subs[v[0]]
    if isinstance(s, Bar): return inside(s, v[1])
    return s.lo <= v[1] <= s.hi


def probe(rng, mon, g, nm, w, model, x0, y0, width, height, flipped=False, oned=None):
    "the positional methods of the axis"
    ax = g.axes[nm]
    horizontal = (nm[0] == "x") != flipped
    if oned: horizontal = oned == "horizontal"
    length = width if horizontal else height
    vals = datavals(w)
    if not vals: return
    for v in rng.sample(vals, min(3, len(vals))):
        p = ax.convert(v)
        a, b = ax.tickpoint_pt(v), ax.vtickpoint_pt(p)
        c = tuple(unit.topt(u) for u in ax.tickpoint(v))
        d = tuple(unit.topt(u) for u in ax.vtickpoint(p))
        for q, what in ((b, "vtickpoint_pt"), (c, "tickpoint"), (d, "vtickpoint")):
            mon.check(math.dist(a, q) <= 1e-7*(1+abs(a[0])+abs(a[1])), "tickpoint", lambda: "axis %s: tickpoint_pt(%r)=%r but %s gives %r" % (nm, v, a, what, q))
        along = a[0] if horizontal else a[1]
        start = (x0 if horizontal else y0)*PT
        close(mon, (along-start)/(length*PT), p, 1e-9*(1+abs(p)+abs(start)/length), "tickpoint-along", "axis %s: position of the tick of %r along the axis" % (nm, v))
        if not oned:
            across = a[1] if horizontal else a[0]
            lo = (y0 if horizontal else x0)*PT
            hi = lo + (height if horizontal else width)*PT
            near = min(abs(across-lo), abs(across-hi))
            mon.check(near < 1e-6*(1+abs(lo)+abs(hi)), "tickpoint-across", lambda: "axis %s: tick of %r at %r is not at an edge of the graph" % (nm, v, a))
            gp = ax.gridpath(v)
            e = [gp.atbegin_pt(), gp.atend_pt()]
            for q, edge in zip(e, (lo, hi)):
                want = (a[0], edge) if horizontal else (edge, a[1])
                mon.check(math.dist(q, want) < 1e-6*(1+abs(q[0])+abs(q[1])), "gridpath", lambda: "axis %s: grid line of %r runs through %r instead of %r" % (nm, v, q, want))
        bp = ax.basepath(v, None)
        mon.check(math.dist(bp.atbegin_pt(), a) < 1e-6*(1+abs(a[0])+abs(a[1])), "basepath", lambda: "axis %s: basepath(%r, None) starts at %r instead of %r" % (nm, v, bp.atbegin_pt(), a))
        if not isinstance(w.m, Bar):
            bp = ax.basepath(None, v)
            mon.check(math.dist(bp.atend_pt(), a) < 1e-6*(1+abs(a[0])+abs(a[1])), "basepath", lambda: "axis %s: basepath(None, %r) ends at %r instead of %r" % (nm, v, bp.atend_pt(), a))
        mon.count("tickpoints")
    # the graph's shortcuts belong to this axis
    if nm in ("x", "y"):
        v = vals[0]
        p = ax.convert(v)
        for short, arg in (("tickpoint_pt", v), ("vtickpoint_pt", p), ("tickdirection", v), ("vtickdirection", p)):
            got, want = getattr(g, nm+("v" if short[0] == "v" else "")+short.lstrip("v"))(arg), getattr(ax, short)(arg)
            mon.check(got == want, "shortcut", lambda: "graph.%s%s(%r) is %r, the axis method gives %r" % (nm, short, arg, got, want))
        mon.count("shortcuts")


def onpath(rng, mon, painted):
    w = W(rng, painted)
    if isinstance(w.m, Bar) or not fixed(w.m): raise Skip
    r = rng.random()
    if r < 0.3: p = path.line(rng.uniform(-3, 3), 0, rng.uniform(4, 8), rng.uniform(-5, 5))
    elif r < 0.6: p = path.path(path.arc(0, 0, rng.uniform(1, 5), rng.uniform(0, 90), rng.uniform(100, 400)))
    else: p = path.curve(0, 0, rng.uniform(1, 3), rng.uniform(-3, 3), rng.uniform(-3, 3), 4, 7, rng.uniform(0, 4))
    direction = rng.choice([1, -1])
    mon.describe("%s along %s" % (w.m.describe(), p))
    mon.nontrivial([w.m.describe(), str(p)])
    a = axis.anchoredpathaxis(p, w.axis, direction=direction)
    m = w.m
    m.data = []
    model = m.check(mon, a.convert, "axis along a path", strict=True)
    np = p.normpath()
    L = np.arclen_pt()
    for v in [m.lo, m.hi] + [m.rv() for _ in range(4)]:
        x = model(v)
        if not -1e-9 <= x <= 1+1e-9: continue
        x = min(1, max(0, x))
        got = a.tickpoint_pt(v)
        want = np.at_pt(np.arclentoparam_pt(x*L))
        mon.check(math.dist(got, want) < 1e-4*max(1, L)+1e-4, "path-point", lambda: "%r (position %r) is at %r on the path axis, expected %r" % (v, x, got, want))
        mon.count("path-points")
        dx, dy = a.tickdirection(v)
        t = np.rotation(np.arclentoparam_pt(x*L)).apply_pt(0, direction)
        mon.check(math.dist((dx, dy), t) < 1e-3, "path-direction", lambda: "tick direction %r instead of %r" % ((dx, dy), t))
    mon.count("axis-on-path")


# ---------------------------------------------------------------- directed cases
def d_call(rng, mon):
    "parameters of existing axes can be altered, directly and by prefixed parameters of graphs"
    def rngof(a, vals=(1., 7.)):
        g = graph.graphxy(width=1, x=a, y=axis.lin(min=0, max=1, painter=None))
        g.plot(graph.data.values(x=list(vals), y=[0, 1]), [graph.style.line()])
        return [g.axes["x"].convert(v) for v in vals]
    for cls in (axis.lin, axis.log, axis.sizedlin, axis.autosizedlin):
        a = cls(painter=None, max=10)(min=0.1)
        mon.check(type(a) is cls, "call-type", lambda: "altering %s creates %s" % (cls, type(a)))
        got = rngof(a)
        want = [(v-0.1)/9.9 for v in (1, 7)] if cls is not axis.log else [math.log(v/0.1)/math.log(100) for v in (1, 7)]
        for x, y in zip(got, want): close(mon, x, y, 1e-12, "call", "position for %s" % cls)
        mon.count("call")
    for cls in (axis.bar, axis.nestedbar, axis.split):
        a = cls(painter=None)(dist=2, firstdist=0, lastdist=0)
        vals = {axis.bar: [("a", 0), ("b", 0), ("a", 1), ("b", 1)], axis.nestedbar: [("a", ("p", 0)), ("b", ("p", 0)), ("a", ("p", 1)), ("b", ("p", 1))],
                axis.split: [("a", 0), ("b", 0), ("a", 1), ("b", 1)]}[cls]
        if cls is axis.split: a = a(defaultsubaxis_painter=None)
        g = graph.graphxy(width=1, x=a, y=axis.lin(min=0, max=1, painter=None))
        g.plot(graph.data.values(x=vals, y=[0, 1, 1, 1]), [graph.style.symbol()])
        for v, want in zip(vals, (0, 0.75, 0.25, 1)): close(mon, g.axes["x"].convert(v), want, 1e-12, "call", "position of %r on %s" % (v, cls))
        mon.count("call")
    g = graph.graphxy(width=1, x=axis.bar(painter=None), x_defaultsubaxis_min=0, y=axis.lin(min=0, max=1, painter=None))
    g.plot(graph.data.values(x=[("a", 1), ("b", 2)], y=[0, 1]), [graph.style.symbol()])
    close(mon, g.axes["x"].convert(("a", 0.5)), 0.25, 1e-12, "call", "position with x_defaultsubaxis_min")
    g = graph.graphxy(width=1, x_min=2, x_max=4, x_painter=None, y_painter=None, y_min=1, y_max=3)
    close(mon, g.axes["x"].convert(3), 0.5, 1e-12, "call", "x_min, x_max")
    close(mon, g.axes["y"].convert(1.5), 0.25, 1e-12, "call", "y_min, y_max")
    for a, want in ((axis.lin(painter=None, parter_extendtick=None), 0), (axis.autosizedlin(painter=None, parter_extendtick=None), 0)):
        close(mon, rngof(a, (1.3, 7.7))[0], want, 1e-12, "call", "start of the range with parter_extendtick=None")
    # unknown names use the default sub axis
    g = graph.graphxy(width=1, x=axis.bar(subaxes={"a": axis.sizedlin(size=3, min=0, max=2, painter=None)}, dist=0, painter=None), y=axis.lin(min=0, max=1, painter=None))
    g.plot(graph.data.values(x=[("a", 1), ("b", 0), ("b", 1)], y=[0, 1, 1]), [graph.style.symbol()])
    for v, want in ((("a", 1), 0.375), (("b", 0), 0.75), (("b", 1), 1)): close(mon, g.axes["x"].convert(v), want, 1e-12, "default-subaxis", "position of %r" % (v,))


def d_vtick(rng, mon):
    g = graph.graphxyz(size=5, x=axis.lin(min=0, max=1, painter=None), y=axis.lin(min=0, max=2, painter=None), z=axis.lin(min=0, max=4, painter=None))
    g.dolayout() if hasattr(g, "dolayout") else None
    for nm, m in (("x", 1), ("y", 2), ("z", 4)):
        for t in (0, 0.25, 1):
            a = getattr(g, nm+"tickpoint_pt")(t*m)
            for f, s in ((nm+"vtickpoint_pt", 1), (nm+"vtickpoint", 0), (nm+"tickpoint", 0)):
                b = getattr(g, f)(t if "v" in f else t*m)
                if not s: b = tuple(unit.topt(u) for u in b)
                mon.check(math.dist(a, b) < 1e-6, "shortcut", lambda: "graphxyz.%s gives %r, %stickpoint_pt gives %r" % (f, b, nm, a))
                mon.count("shortcuts-3d")


def d_zero(rng, mon):
    "missing ranges are refused"
    for cls in (axis.lin, axis.log):
        for vals in ([2.0], [3, 3, 3], []):
            g = graph.graphxy(width=1, x=cls(painter=None), y=axis.lin(min=0, max=1, painter=None))
            if vals: g.plot(graph.data.values(x=vals, y=[0]*len(vals)), [graph.style.symbol()])
            try: got = g.axes["x"].convert(2.0)
            except RuntimeError: mon.count("refused"); continue
            mon.fail("zero-range", "%s axis with data %r places 2.0 at %r" % (cls, vals, got))


def d_invisible(rng, mon):
    "an axis without any visible parts"
    old = text.defaulttextengine
    text.defaulttextengine = scene.texengine("tex")
    try:
        for cls in (axis.lin, axis.log):
            g = graph.graphxy(width=5, x=cls(min=1, max=3, painter=painter.regular(tickattrs=None, labelattrs=None, basepathattrs=None)), y=axis.lin(min=0, max=1, painter=None))
            close(mon, g.axes["x"].convert(3), 1, 1e-12, "mapping", "position of the maximum")
            mon.count("invisible")
    finally: text.defaulttextengine = old
