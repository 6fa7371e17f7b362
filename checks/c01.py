"""C01: lengths against an exact rational model of the five scaled components."""
import math, operator
from fractions import Fraction as F
from harness import Skip
from pyx import unit

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("random expressions over lengths of all types and units, plain numbers and predefined constants, evaluated between random "
        "calls of unit.set changing scales and the default unit; every conversion, comparison and quotient is compared with exact rational "
        "arithmetic; distinct by the history, non-trivial when a scale differs from one")
QUICK, THOROUGH = 20000, 400000
REQUIRED = {"conv": 5000, "cmp": 3000, "ratio": 2000, "set": 3000, "old length rescaled": 2000, "mixed": 3000, "types:t": 1000, "types:x": 1000}
DIRECTED = ["constants", "foreign", "errors"]
ASSUMPTIONS = ["inch = 2.54 cm, pt = inch/72 (PostScript point)"]
M = {"m": F(1), "cm": F(1, 100), "mm": F(1, 1000), "inch": F(254, 10000), "pt": F(254, 10000)/72}


class Model:
    "global scale state and conversion to metres"
    def __init__(self): self.s = dict(u=F(1), v=F(1), w=F(1), x=F(1), t=F(1)); self.d = "cm"
    def m(self, l): return sum((l[k]*self.s[k] for k in l), F(0))
    def num(self, v): return {"u": F(v)*M[self.d]}


def add(a, b, s=1):
    r = dict(a)
    for k in b: r[k] = r.get(k, F(0)) + s*b[k]
    return r


def leaf(rng, mon, st):
    "(pyx length, model, text); never a bare number"
    r = rng.random()
    v = rng.choice([0, 1, -1, 2, 0.5, rng.uniform(-10, 10), rng.uniform(-1e-3, 1e-3), rng.uniform(-1e4, 1e4)])
    if r < 0.55:
        t = rng.choice("tuvwx"); mon.count("types:" + t)
        un = rng.choice([None, "m", "cm", "mm", "inch", "pt"])
        q = rng.random()
        if q < 0.5: l = unit.length(v, t, un)
        elif q < 0.75 or t != "u": l = unit.length(v, type=t, unit=un)
        else: l = unit.length(v, unit=un)
        if rng.random() < 0.2: v = str(v); l = unit.length(v, t, un); v = float(v)
        return l, {t: F(v)*M[un or st.d]}, "L(%r,%s,%s)" % (v, t, un)
    if r < 0.65:
        return unit.length(v), {"u": F(v)*M[st.d]}, "L(%r)" % v
    t = rng.choice(["", "u_", "t_", "v_", "w_", "x_"]); un = rng.choice(["m", "cm", "mm", "inch", "pt"])
    c = getattr(unit, t + un)
    t = t[:1] or "u"; mon.count("types:" + t)
    return (v*c if rng.random() < 0.5 else c*v), {t: F(v)*M[un]}, "%r*%s_%s" % (v, t, un)


def expr(rng, mon, st, depth):
    if depth == 0 or rng.random() < 0.15: return leaf(rng, mon, st)
    op = rng.choice(["+", "-", "*", "/", "neg", "num+", "+num", "num-", "-num", "sum"])
    a, ma, sa = expr(rng, mon, st, depth-1)
    k = rng.choice([0, 1, -2, 3, rng.uniform(-5, 5)])
    if op in "+-":
        b, mb, sb = expr(rng, mon, st, depth-1)
        if set(ma) != set(mb): mon.count("mixed")
        return (a+b if op == "+" else a-b), add(ma, mb, 1 if op == "+" else -1), "(%s%s%s)" % (sa, op, sb)
    if op == "*": return (a*k if rng.random() < 0.5 else k*a), {q: F(k)*x for q, x in ma.items()}, "%r*%s" % (k, sa)
    if op == "/":
        k = k or 7
        return a/k, {q: x/F(k) for q, x in ma.items()}, "%s/%r" % (sa, k)
    if op == "neg": return -a, {q: -x for q, x in ma.items()}, "-(%s)" % sa
    if op == "num+": return k+a, add(st.num(k), ma), "(%r+%s)" % (k, sa)
    if op == "+num": return a+k, add(ma, st.num(k)), "(%s+%r)" % (sa, k)
    if op == "num-": return k-a, add(st.num(k), ma, -1), "(%r-%s)" % (k, sa)
    if op == "-num": return a-k, add(ma, st.num(k), -1), "(%s-%r)" % (sa, k)
    b, mb, sb = leaf(rng, mon, st)
    return sum([a, b], unit.length(0)), add(ma, mb), "sum(%s,%s)" % (sa, sb)


def size(ml, st): return sum((abs(x)*abs(st.s[k]) for k, x in ml.items()), F(0))


CONV = {"tom": "m", "tocm": "cm", "tomm": "mm", "toinch": "inch", "topt": "pt"}


def conv(l, ml, st, mon, text, tot):
    for f, un in CONV.items():
        want = st.m(ml)/M[un]
        tol = float(tot/M[un])*2e-14 + 1e-300
        mon.close(getattr(unit, f)(l), float(want), tol, "convert-" + un, lambda: "%s under %r" % (text, {k: float(v) for k, v in st.s.items()}))
        mon.count("conv")


def run_case(kind, i, rng, mon):
    unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")
    try:
        if kind != "gen": return globals()["d_" + kind](rng, mon)
        st = Model(); made = []; hist = []
        for step in range(rng.randint(1, 5)):
            if rng.random() < 0.6:
                kw = {}
                for k in "uvwx":
                    if rng.random() < 0.35: kw[k + "scale"] = rng.choice([0.5, 2, 3, 0.1, 10, rng.uniform(0.1, 5)]); st.s[k] = F(kw[k + "scale"])
                if rng.random() < 0.3: kw["defaultunit"] = st.d = rng.choice(["cm", "mm", "inch", "pt", "m"])
                unit.set(**kw); mon.count("set"); hist.append("set%r" % kw)
                if any(v != 1 for v in st.s.values()): mon.nontrivial(repr(hist))
            l, ml, text = expr(rng, mon, st, rng.choice([0, 1, 2, 3]))
            hist.append(text); mon.describe(hist)
            made.append((l, ml, text, bound(text)))
            n = rng.choice([0, 2, -3.5, rng.uniform(-9, 9)])
            conv(n, st.num(n), st, mon, "number %r" % n, size(st.num(n), st))
            for j, (l, ml, text, b) in enumerate(made):
                if step and j < len(made)-1: mon.count("old length rescaled")
                conv(l, ml, st, mon, text, mag(ml, st, b))
            # comparisons and quotients of any two
            a, b = rng.choice(made), rng.choice(made)
            va, vb = st.m(a[1]), st.m(b[1])
            slack = F(float(mag(a[1], st, a[3]) + mag(b[1], st, b[3]))*4e-14)
            if a is b or abs(va-vb) > slack:
                for name, f in (("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
                    mon.check(f(a[0], b[0]) == f(va, vb), "compare", lambda: "%s %s %s: %r against %r" % (a[2], name, b[2], float(va), float(vb)))
                mon.count("cmp")
            if abs(vb) > 1e3*F(float(mag(b[1], st, b[3]))*1e-14) and vb:
                q = a[0]/b[0]
                mon.check(isinstance(q, float), "ratio-type")
                rel = float(mag(a[1], st, a[3])/abs(vb)) + float(abs(va)*mag(b[1], st, b[3])/(vb*vb))
                mon.close(q, float(va/vb), 1e-13*rel + 1e-300, "ratio", lambda: "%s / %s" % (a[2], b[2])); mon.count("ratio")
            n = rng.choice([0, 1, rng.uniform(-5, 5)])
            vn = st.m(st.num(n))
            if abs(va - vn) > slack:
                mon.check((a[0] < n) == (va < vn) and (a[0] >= n) == (va >= vn) and (n < a[0]) == (vn < va) and (a[0] == n) is False, "compare-number",
                          lambda: "%s with %r" % (a[2], n))
    finally:
        unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")


def bound(text): return 1 + text.count("(")


def mag(ml, st, b):
    # every leaf is at most 1e4 units, factors at most 5 per level
    return size(ml, st)*10 + F(1e4)*max(st.s.values())*F(1, 1)*F(10)**-3 if b <= 1 else size(ml, st)*10 + F(5e4)*max(st.s.values())*b


def d_constants(rng, mon):
    for t in ["", "u_", "t_", "v_", "w_", "x_"]:
        for un in M:
            c = getattr(unit, t + un)
            for s in (1, 2.5):
                unit.set(uscale=s, vscale=s*2, wscale=s*3, xscale=s*5)
                f = dict(u=s, v=2*s, w=3*s, x=5*s, t=1)[t[:1] or "u"]
                mon.close(unit.tom(c), f*float(M[un]), 1e-15*f, "constant", t + un)


def d_foreign(rng, mon):
    "a true length keeps its value under any scale; scales act on their own type only"
    for k in "uvwx":
        unit.set(uscale=1, vscale=1, wscale=1, xscale=1)
        ls = {t: unit.length(1, t, "mm") for t in "tuvwx"}
        unit.set(**{k + "scale": 7})
        for t, l in ls.items():
            mon.close(unit.tomm(l), 7.0 if t == k else 1.0, 1e-12, "scale-own-type", "scale %s on %s" % (k, t))
            mon.close(unit.tomm(unit.length(1, t, "mm")), 7.0 if t == k else 1.0, 1e-12, "scale-own-type", "scale %s on %s" % (k, t))


def d_errors(rng, mon):
    l = unit.length(1)
    for name, f in (("add", lambda: l + "a b"), ("sub", lambda: l - [1]), ("rsub", lambda: [1] - l), ("lt", lambda: l < "x"), ("mul", lambda: [] < l), ("unit", lambda: unit.length(1, unit="furlong"))):
        try:
            f()
        except RecursionError as e:
            mon.fail("foreign-operand", name)
        except Exception:
            mon.check(True, "foreign-operand")
        else:
            mon.fail("foreign-operand", "%s accepted" % name)
    mon.check((l == "x") is False and (l != "x") is True, "foreign-equality")
    # operands are not changed
    a, b = unit.length(1, "v", "mm"), unit.length(2, "w", "pt")
    sa, sb = str(a), str(b)
    for r in (a+b, a-b, -a, 2*a, a/2, 1+a, 1-a): pass
    a += b
    b -= unit.length(1)
    mon.check(str(unit.length(1, "v", "mm")) == sa and sb == str(unit.length(2, "w", "pt")), "mutated")
    s = unit.length(1, "v", "mm"); t = s; t += 1
    mon.check(str(s) == sa, "mutated", "augmented assignment changed a shared length")
