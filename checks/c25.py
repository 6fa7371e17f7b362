"""C25: graph data columns deliver the given rows.

Tables are generated together with the text/list/array/section they are delivered in; columns
are requested by number, name and expression and compared with an own evaluation of the
table; a recording graph style watches the points the graph draws. Snapshots of the sources
are compared before and after all requests and plots."""
import math, io, os, copy, datetime, struct, re
import numpy
numpy.seterr(all="ignore")
from harness import Skip
from pyx import graph, text
from pyx.graph import axis
from pyx.graph.axis import timeaxis
from pyx.graph import data as gd

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("random tables given as files (comments anywhere, quoted strings, ragged rows, custom patterns, skiphead/skiptail/every, through the cache and as file objects), "
        "point lists/tuples/arrays, value columns, config files, cbd files, chains of data on data, functions on all kinds of axes, parametric functions and joins; "
        "columns by number, negative number, name and random expressions with $-references, context and all builtins; distinct by table and requests")
QUICK, THOROUGH = 16000, 1200000
CPU = 60
REQUIRED = {'bad-column': 535, 'by-expression': 5650, 'by-name': 3544, 'by-number': 2544, 'cbd': 161, 'cbd-long': 1144, 'cbd-short': 1700, 'cbd-values': 2821, 'chained': 1392, 'conf': 261, 'conf-missing': 88, 'copied': 7482, 'file-object': 537, 'file-real': 526, 'function-again': 159, 'function-datarange': 167, 'function-lin': 207, 'function-linked': 40, 'function-log': 208, 'function-logneg': 100, 'function-missing': 2380, 'function-time': 106, 'function-values': 15313, 'join-dynamic': 90, 'joins': 303, 'missing': 7084, 'opt-columnpattern': 166, 'opt-commentpattern': 186, 'opt-every': 433, 'opt-skiphead': 458, 'opt-skiptail': 456, 'opt-stringpattern': 166, 'other-selection': 88, 'param-values': 14915, 'plotted-arrow': 19, 'plotted-bar': 18, 'plotted-density': 19, 'plotted-errorbar': 39, 'plotted-gridline': 18, 'plotted-histogram': 40, 'plotted-impulses': 19, 'plotted-line': 18, 'plotted-rect': 21, 'plotted-stack': 20, 'plotted-surface': 22, 'plotted-symbol': 25, 'plotted-symbol+line': 20, 'points-array': 134, 'points-list': 134, 'points-mixed': 137, 'points-tuple': 128, 'ragged-points': 322, 'ragged-values': 214, 'recorded': 9978, 'refused': 1618, 'repeated': 1878, 'values': 96264, 'values-data': 287, 'call': 2}
DIRECTED = ["call", "readonce"]
ASSUMPTIONS = ["expressions over missing entries or strings which Python cannot evaluate may be refused with TypeError instead of being marked as missing",
               "sections of config files are delivered in sorted order (as the code states)"]
NAMES = ["a", "b", "A", "B", "val", "x_1", "speed", "T", "foo", "k2"]
KEYS = ["x", "y", "row", "u", "w", "q9", "z_", "dx"]


# ---------------------------------------------------------------- comparison
def same(a, b):
    if a is b: return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None: return False
    if isinstance(a, str) or isinstance(b, str): return type(a) == type(b) and a == b
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return numpy.array_equal(a, b, equal_nan=True)
    try:
        if a != a and b != b: return True
        return a == b or abs(a-b) <= 1e-12*max(abs(a), abs(b))
    except TypeError:
        return a == b


def samecol(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def snap(x):
    if isinstance(x, numpy.ndarray): return x.copy()
    if isinstance(x, dict): return {k: snap(v) for k, v in x.items()}
    if isinstance(x, list): return [snap(v) for v in x]
    if isinstance(x, tuple): return tuple(snap(v) for v in x)
    return x


def samesnap(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(samesnap(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return type(a) == type(b) and len(a) == len(b) and all(samesnap(x, y) for x, y in zip(a, b))
    if isinstance(a, numpy.ndarray): return isinstance(b, numpy.ndarray) and a.dtype == b.dtype and numpy.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return type(a) == type(b) and (a == b or a != a and b != b)


# ---------------------------------------------------------------- expressions
def _split(value, *sp):
    i = sum(1 for k, s in enumerate(sp) if all(q < value for q in sp[:k+1]))
    if len(sp) > 1: i = None if i % 2 else i//2
    return (i, value)


D = math.pi/180
BUILTIN = {"neg": (1, lambda x: -x), "abs": (1, abs), "sgn": (1, lambda x: -1 if x < 0 else 1), "sqrt": (1, math.sqrt), "exp": (1, math.exp), "log": (1, math.log),
           "sin": (1, math.sin), "cos": (1, math.cos), "tan": (1, math.tan), "asin": (1, math.asin), "acos": (1, math.acos), "atan": (1, math.atan),
           "sind": (1, lambda x: math.sin(D*x)), "cosd": (1, lambda x: math.cos(D*x)), "tand": (1, lambda x: math.tan(D*x)),
           "asind": (1, lambda x: 180/math.pi*math.asin(x)), "acosd": (1, lambda x: 180/math.pi*math.acos(x)), "atand": (1, lambda x: 180/math.pi*math.atan(x)),
           "norm": (2, math.hypot)}


def expression(rng, leaves, depth=0):
    "leaves: list of (text, function of row); returns (text, function of row)"
    r = rng.random()
    if depth > 3 or r < 0.3:
        if rng.random() < 0.2:
            if rng.random() < 0.3:
                return rng.choice([("pi", lambda row: math.pi), ("e", lambda row: math.e)])
            c = rng.choice([0, 1, 2, 0.5, 10, -1, 3.25])
            return "(%r)" % c if c < 0 else repr(c), lambda row, c=c: c
        return rng.choice(leaves)
    a, fa = expression(rng, leaves, depth+1)
    if r < 0.6:
        b, fb = expression(rng, leaves, depth+1)
        op = rng.choice("+-*/+-*/%")
        return "(%s%s%s)" % (a, rng.choice([op, " %s " % op]), b), {"+": lambda row: fa(row)+fb(row), "-": lambda row: fa(row)-fb(row), "*": lambda row: fa(row)*fb(row),
                                                                     "/": lambda row: fa(row)/fb(row), "%": lambda row: fa(row) % fb(row)}[op]
    if r < 0.68:
        n = rng.choice([2, 3, 0, -1])
        return "%s**%s" % (a if a[0] == "(" and a[-1] == ")" and depth and False else "(%s)" % a, "(%d)" % n if n < 0 else n), lambda row: fa(row)**n
    if r < 0.75:
        b, fb = expression(rng, leaves, depth+1)
        c, fc = expression(rng, leaves, depth+1)
        op, cmp = rng.choice([(">", lambda u, v: u > v), ("<=", lambda u, v: u <= v), ("==", lambda u, v: u == v), ("!=", lambda u, v: u != v)])
        return "(%s if %s%s%s else %s)" % (a, a, op, b, c), lambda row: fa(row) if cmp(fa(row), fb(row)) else fc(row)
    if r < 0.79:
        sp = sorted(rng.sample([-3, -1, 0, 0.5, 1, 2, 5], rng.choice([1, 2, 3, 4])))
        return "splitatvalue(%s, %s)[1]" % (a, ", ".join(map(repr, sp))), lambda row: _split(fa(row), *sp)[1]
    if r < 0.82:
        return "-%s" % (a if re.match(r"[\w$.]+$", a) else "(%s)" % a), lambda row: -fa(row)
    name = rng.choice(sorted(BUILTIN))
    n, f = BUILTIN[name]
    if n == 2:
        b, fb = expression(rng, leaves, depth+1)
        return "%s(%s, %s)" % (name, a, b), lambda row: f(fa(row), fb(row))
    return "%s(%s)" % (name, a), lambda row: f(fa(row))


class Refuse(Exception): pass


def evaluate(f, n):
    "expected column; Refuse when python cannot evaluate a row"
    out = []
    for i in range(n):
        try: v = f(i)
        except (ArithmeticError, ValueError): v = None
        except TypeError: raise Refuse()
        if isinstance(v, complex): raise Skip("complex")
        out.append(v)
    return out


# ---------------------------------------------------------------- requesting columns from a table
class Table:
    "numbered columns (list, index 0 is the row number column when present) and named columns (dict)"

    def __init__(self, numbered, named, n):
        self.numbered, self.named, self.n = numbered, named, n


ctxfuncs = {"f": lambda x: 3*x+1, "g": lambda x, y: x-y}


def requests(rng, t, avoid=()):
    "returns keyword arguments for data, expected columns (or Refuse) for them"
    ctx = {}
    if rng.random() < 0.5:
        for k in rng.sample(["i", "two", "f", "g", "a", "speed", "e", "offset"], rng.randint(1, 4)):
            ctx[k] = ctxfuncs[k] if k in ctxfuncs else rng.choice([1, 2, 2.5, -1])
    kw = {}
    if ctx or rng.random() < 0.1: kw["context"] = ctx
    cb = "__column__"
    if rng.random() < 0.15:
        cb = kw["columncallback"] = rng.choice(["col", "getcol"])
    dollar = True
    if rng.random() < 0.12:
        dollar = False
        kw["replacedollar"] = rng.choice([0, False])
    elif rng.random() < 0.1: kw["replacedollar"] = 1
    cp = True
    if rng.random() < 0.3:
        cp = rng.choice([0, 1, False, True])
        kw["copy"] = cp
    leaves = [("%r" % c, lambda row, c=c: c) for c in [rng.choice([2, 1.5, 7])]]
    env = {k: (lambda row, v=v: v) for k, v in ctx.items() if not callable(v)}
    for name, col in t.named.items():
        if name.isidentifier(): env[name] = lambda row, col=col: col[row]
    for name in env: leaves.append((name, env[name]))
    if t.numbered is not None:
        nums = list(range(len(t.numbered))) + [-1-j for j in range(len(t.numbered))]
        for j in rng.sample(nums, min(4, len(nums))):
            col = t.numbered[j]
            fcol = lambda row, col=col: col[row]
            if dollar:
                leaves.append(("$%d" % j, fcol))
                if rng.random() < 0.3: leaves.append(("$(%d)" % j, fcol))
                if rng.random() < 0.2 and j >= 0: leaves.append(("$(%d-%d)" % (j+3, 3), fcol))
                ints = [k for k, v in ctx.items() if isinstance(v, int) and k not in t.named and abs(v) < len(t.numbered)]
                if ints and rng.random() < 0.5:
                    k = rng.choice(ints)
                    leaves.append(("$(%s)" % k, lambda row, col=t.numbered[ctx[k]]: col[row]))
            else:
                leaves.append(("%s(%d)" % (cb, j), fcol))
    for name, col in t.named.items():
        if rng.random() < 0.3:
            leaves.append(("%s(%r)" % ("$" if dollar else cb, name), lambda row, col=col: col[row]))
    if "f" in ctx and "f" not in t.named and len(leaves) > 1:
        l, fl = rng.choice(leaves)
        leaves.append(("f(%s)" % l, lambda row: 3*fl(row)+1))
    keys = rng.sample([k for k in KEYS + list(t.named)[:2] if k.isidentifier() and k not in avoid], rng.randint(1, 5))
    want = {}
    shadow = {"e", "pi"} & (set(env))
    for k in keys:
        r = rng.random()
        if r < 0.35 and t.numbered:
            j = rng.choice(range(-len(t.numbered), len(t.numbered)))
            kw[k] = j
            want[k] = list(t.numbered[j])
        elif r < 0.5 and t.named:
            n = rng.choice(sorted(t.named))
            kw[k] = n
            want[k] = list(t.named[n])
        else:
            while 1:
                s, f = expression(rng, leaves)
                # builtin names hidden by columns or context
                if shadow and re.search(r"\b(%s)\b" % "|".join(shadow), s): continue
                if s in t.named: continue
                break
            kw[k] = rng.choice(["%s", "%s", " %s", "%s "]) % s
            try: want[k] = evaluate(f, t.n)
            except Refuse: want[k] = Refuse
    allcols = {k: list(v) for k, v in t.named.items() if k not in want} if cp else {}
    allcols.update(want)
    return kw, allcols, ctx


def ask(rng, mon, make, t, what, avoid=()):
    "one request; returns the data and the table it provides"
    kw, want, ctx = requests(rng, t, avoid)
    if rng.random() < 0.3: kw["title"] = rng.choice([None, "my title", ""])
    mon.describe("%s requesting %r" % (what, {k: v for k, v in kw.items() if k != "context"} if not ctx else kw))
    ctx0 = dict(ctx)
    try:
        d = make(kw)
    except TypeError as e:
        if any(v is Refuse for v in want.values()):
            mon.count("refused")
            return None
        raise
    mon.check(dict(ctx) == ctx0, "context-changed", lambda: "the context is now %r" % ctx)
    mon.check(set(d.columns) == set(want) and set(d.columnnames) == set(want), "columns-set", lambda: "columns %r (names %r), expected %r" % (sorted(d.columns), d.columnnames, sorted(want)))
    for k, v in want.items():
        got = list(d.columns[k])
        if v is Refuse:
            mon.fail("not-missing", "column %s=%r of entries which cannot be evaluated is %r" % (k, kw[k], got))
        mon.check(samecol(got, v), "column-value", lambda: "column %s=%r is %r, expected %r" % (k, kw.get(k, "(copied)"), got, v))
        mon.count("values", len(v))
        if k in kw: mon.count("by-number" if isinstance(kw[k], int) else "by-name" if kw[k] in t.named else "by-expression")
        else: mon.count("copied")
        mon.count("missing", sum(1 for x in v if x is None))
    if "title" in kw: mon.check(d.title == kw["title"], "title", lambda: "title is %r, %r was given" % (d.title, kw["title"]))
    else:
        cols = [k for k in kw if k in KEYS or k in t.named]
        mon.check(isinstance(d.title, str) and all("%s=" % text.escapestring(k) in d.title for k in cols), "title", lambda: "default title %r" % d.title)
    return d, Table(None, want, t.n), kw


def again(rng, mon, make, kw, d):
    "equal requests give equal results"
    d2 = make(dict(kw))
    mon.check(samesnap(snap(dict(d.columns)), snap(dict(d2.columns))) and d.title == d2.title, "unequal-results", lambda: "the same request gives %r (%r) first and %r (%r) later" % (d.columns, d.title, d2.columns, d2.title))
    mon.count("repeated")


def chain(rng, mon, d, t, what):
    for k in range(rng.choice([0, 0, 1, 1, 2, 3])):
        before = snap(dict(d.columns))
        r = ask(rng, mon, lambda kw: gd.data(d, **kw), t, what + " -> data")
        mon.check(samesnap(before, snap(dict(d.columns))), "source-changed", lambda: "the columns of the source changed from %r to %r" % (before, d.columns))
        if r is None: return
        mon.count("chained")
        d, t, kw = r
        if rng.random() < 0.5 and t.n: record(rng, mon, d, t)


# ---------------------------------------------------------------- a recording style
class Rec(graph.style._style):
    def __init__(self, use=None):
        self.use, self.points = use, []

    def columnnames(self, privatedata, sharedata, graph, columnnames, dataaxisnames):
        self.names = list(columnnames)
        return [n for n in columnnames if self.use is None or n in self.use]

    def drawpoint(self, privatedata, sharedata, graph, point):
        self.points.append(dict(point))


def plain(**kw):
    kw = dict({"x": axis.lin(min=0, max=1, painter=None), "y": axis.lin(min=0, max=1, painter=None)}, **kw)
    return graph.graphxy(width=5, **kw)


def record(rng, mon, d, t):
    rec = Rec()
    g = plain()
    g.plot(d, [rec])
    g.doplot()
    if not t.named: return
    mon.check(len(rec.points) == t.n, "points-drawn", lambda: "%d points are drawn for %d rows" % (len(rec.points), t.n))
    for i, p in enumerate(rec.points):
        mon.check(set(p) == set(t.named) and all(same(p[k], t.named[k][i]) for k in p), "points-drawn", lambda: "point %d is %r, expected %r" % (i, p, {k: v[i] for k, v in t.named.items()}))
    mon.count("recorded", len(rec.points))


# ---------------------------------------------------------------- files
NUM = ["1", "-2.5", "1e3", ".5", "+3", "7.", "0", "12", "-0.001", "3.14159", "42", "1E-2", "nan", "inf", "100"]
STR = ["eins", "--", "1,5", "0x1F", 'x"x', "n/a", "12:30", "a=b", "$", "'q'"]


def token(rng, first, style):
    "(text, value)"
    r = rng.random()
    if r < 0.75:
        s = rng.choice(NUM) if rng.random() < 0.6 else repr(round(rng.uniform(-10, 10), 3))
        return s, float(s)
    if style == "csv":
        if r < 0.85: return "'%s'" % (lambda q: q)("one two, %d" % rng.randrange(9)), None
        s = rng.choice(["alpha beta", "x;y", "1 2", "nope"])
        return s, s
    if style in ("default", "comment"):
        if r < 0.85:
            q = rng.choice(["a b", "", " x ", "2", "#no comment", "1.5", 'in"side quote', "tab\tbed"])
            return '"%s"' % q, q
        s = rng.choice([s for s in STR if not first or s[0] not in "#!%"])
        return s, s
    raise AssertionError


def makefile(rng, name_ok=True):
    style = rng.choice(["default"]*4 + ["csv", "comment"])
    cm = {"default": ["#", "##", "!", "%", "%%%"], "csv": ["#"], "comment": ["//", ";", ";;"]}[style]
    sep = lambda: ", " if style == "csv" and rng.random() < 0.5 else "," if style == "csv" else rng.choice([" ", "  ", "\t", " \t "])
    nrow = rng.choice([1, 2, 3, 5, 8, 13, rng.randint(1, 40)])
    ncol = rng.choice([1, 2, 3, 4, 6, 13])
    ragged = rng.random() < 0.4
    quotes = rng.random() < 0.7
    rows, lines = [], []
    for i in range(nrow):
        row = []
        for j in range(ncol if not ragged else rng.randint(1, ncol)):
            while 1:
                s, v = token(rng, not j, style)
                if style == "csv" and s[0] == "'": v = s[1:-1]
                if quotes or not (s[0] in "\"'" or isinstance(v, str)): break
            row.append((s, v))
        rows.append([v for s, v in row])
        l = row[0][0]
        for s, v in row[1:]: l += sep() + s
        if style != "csv": l = rng.choice(["", "", "", " ", "\t"]) + l + rng.choice(["", "", " ", "\t "])
        lines.append(l)
    opts = {}
    skiphead = skiptail = 0
    every = 1
    if rng.random() < 0.45: skiphead = opts["skiphead"] = rng.randint(0, max(nrow//2, 1))
    if rng.random() < 0.45: skiptail = opts["skiptail"] = rng.randint(0, max(nrow//2, 1))
    if rng.random() < 0.4: every = opts["every"] = rng.randint(1, 5)
    keep = [i for i in range(skiphead, nrow-skiptail, every)]
    width = max([len(rows[i]) for i in keep], default=0)
    if any(len(rows[i]) > width for i in range(skiphead, nrow, every)): raise Skip("skipped tail is wider")
    # comments: the header names are the last non-empty comment before the data
    first = keep[0] if keep else nrow
    out, names = [], []

    def header():
        k = rng.choice([max(width, 1), max(width, 1), rng.randint(1, width+2)])
        ns = rng.sample(NAMES + ["1", "col-x", "two"], min(k, 10))
        if style in ("default", "comment") and rng.random() < 0.2: ns[rng.randrange(len(ns))] = "first col"
        l = rng.choice(cm) + rng.choice([" ", "", "  "])
        for q, n in enumerate(ns):
            if q: l += sep()
            l += ('"%s"' % n) if " " in n else n
        return l, ns
    for i in range(nrow+1):
        while rng.random() < 0.25:
            r = rng.random()
            if r < 0.4: out.append(rng.choice(["", "  ", "\t"]))
            elif r < 0.65: out.append(rng.choice(["", " "]) + rng.choice(cm) + rng.choice(["", " "]))
            elif i == 0 or i > first:
                l, ns = header()
                if i == 0: names = ns
                out.append(l)
        if i < nrow: out.append(lines[i])
    if rng.random() < 0.35:
        l, names = header()
        k = 0
        # put it before all lines, possibly followed by empty comments
        pos = next(j for j, l2 in enumerate(out) if l2 in lines or l2.strip() == lines[0].strip())
        out[pos:pos] = [l] + [rng.choice(["", rng.choice(cm), " "]) for j in range(rng.choice([0, 0, 1]))]
    nl = rng.choice(["\n", "\n", "\n", "\r\n"])
    textdata = nl.join(out) + (nl if rng.random() < 0.8 else "")
    if style == "csv":
        opts["columnpattern"] = re.compile(r"(.*?)\s*(,\s*|$)")
        opts["stringpattern"] = re.compile(r"'(.*?)'\s*(,\s*|$)")
    elif style == "comment": opts["commentpattern"] = re.compile(r"(//|;+)\s*")
    numbered = [[i+1 for i in keep]] + [[rows[i][j] if j < len(rows[i]) else None for i in keep] for j in range(width)]
    named = {n: numbered[j+1] for j, n in enumerate(names[:width])}
    return textdata, opts, Table(numbered, named, len(keep)), rows


def files(rng, mon):
    txt, opts, t, rows = makefile(rng)
    if not t.n: raise Skip("no rows")
    mon.nontrivial(["file", txt, sorted(opts)])
    name = os.path.join(mon.tmp, "data%d.dat" % rng.randrange(10**9))
    real = rng.random() < 0.5
    what = "file %r %r" % (txt, opts)
    if real:
        with open(name, "w", newline="") as f: f.write(txt)
        make = lambda kw: gd.file(name, **dict(opts, **kw))
        mon.count("file-real")
    else:
        make = lambda kw: gd.file(io.StringIO(txt, newline=""), **dict(opts, **kw))
        mon.count("file-object")
    for k in opts: mon.count("opt-" + k)
    mon.describe(what)
    first = None
    for k in range(rng.choice([1, 2, 3])):
        r = ask(rng, mon, make, t, what)
        if r is None: continue
        d, t2, kw = r
        if first is None: first = (d, kw)
        if rng.random() < 0.3: record(rng, mon, d, t2)
        if rng.random() < 0.4: chain(rng, mon, d, t2, what)
        if real and k == 0 and rng.random() < 0.3:
            # another selection of the same file
            txt2 = None
            sk = rng.randint(0, 2)
            if rows[sk:]:
                w = max(len(r) for r in rows[sk:])
                o = {k: v for k, v in opts.items() if k.endswith("pattern")}
                d2 = gd.file(name, skiphead=sk, row=0, last=-1, **o)
                n = len(rows)
                mon.check(list(d2.columns["row"]) == list(range(sk+1, n+1)), "column-value", lambda: "with skiphead=%d the rows are %r" % (sk, d2.columns["row"]))
                mon.check(samecol(list(d2.columns["last"]), [(r+[None]*w)[w-1] for r in rows[sk:]]), "column-value", lambda: "with skiphead=%d the last column is %r" % (sk, d2.columns["last"]))
                mon.count("other-selection")
    if first: again(rng, mon, make, first[1], first[0])
    if real: os.remove(name)


# ---------------------------------------------------------------- points and values
def pointlist(rng, mon):
    n, m = rng.choice([1, 2, 3, 7, 20]), rng.choice([1, 2, 3, 5, 12])
    cell = lambda: rng.choice([rng.randint(-5, 5), rng.uniform(-5, 5), rng.uniform(-5, 5)] + ([None, "s", (1, 2.5)] if rng.random() < 0.15 else []))
    rows = [[cell() for j in range(m)] for i in range(n)]
    form = rng.choice(["list", "tuple", "mixed", "array"])
    if form == "array": src = numpy.array([[float(v) if isinstance(v, (int, float)) else 0.5 for v in r] for r in rows]); rows = [list(r) for r in src]
    elif form == "tuple": src = tuple(tuple(r) for r in rows)
    elif form == "mixed": src = [tuple(r) if rng.random() < 0.5 else list(r) for r in rows]
    else: src = rows; rows = [list(r) for r in rows]
    kw = {}
    aln = True
    if rng.random() < 0.4: aln = kw["addlinenumbers"] = rng.choice([0, 1, False, True])
    off = 1 if aln else 0
    numbered = ([list(range(1, n+1))] if aln else []) + [[r[j] for r in rows] for j in range(m)]
    named = {}
    for k in rng.sample(NAMES, rng.randint(1, 4)):
        kw[k] = j = rng.choice(range(len(numbered))) if rng.random() < 0.8 else -rng.randint(1, max(m-1, 1)) if m > 1 or aln else 0
        named[k] = numbered[j]
    title = rng.choice([None, "pts", 0])
    if title != 0: kw["title"] = title
    before = snap(src)
    mon.describe("points(%r, %r)" % (src, kw))
    mon.nontrivial(["points", repr(src), repr(kw)])
    d = gd.points(src, **kw)
    mon.check(set(d.columns) == set(named) == set(d.columnnames), "columns-set", lambda: "columns %r" % d.columns)
    for k in named: mon.check(samecol(list(d.columns[k]), named[k]), "column-value", lambda: "column %s=%r is %r" % (k, kw[k], d.columns[k]))
    if title != 0: mon.check(d.title == title, "title", lambda: repr(d.title))
    bad = rng.choice([m+1, m+2, -(m+2)])
    if 0 <= bad < len(numbered): bad = m+5
    try: gd.points(src, **dict(kw, zz=bad))
    except ValueError: mon.count("bad-column")
    else: mon.fail("bad-column", "column %d of %d accepted" % (bad, m))
    if n > 1 and form != "array":
        try: gd.points(list(src[:-1]) + [list(src[-1]) + [1]], **kw)
        except ValueError: mon.count("ragged-points")
        else: mon.fail("ragged-points", "rows of different length accepted")
    t = Table(numbered, named, n)
    mon.count("points-" + form)
    for k in range(rng.choice([1, 2])):
        r = ask(rng, mon, lambda q: gd.data(d, **q), t, "points(%r, %r)" % (src, kw))
        if r is None: continue
        d2, t2, q = r
        chain(rng, mon, d2, t2, "points(%r, %r) -> data(%r)" % (src, kw, q))
        again(rng, mon, lambda kw: gd.data(d, **kw), q, d2)
    if rng.random() < 0.4: record(rng, mon, d, t)
    mon.check(samesnap(before, src if form == "array" else snap(src)), "source-changed", lambda: "the points are now %r" % (src,))


def valuecols(rng, mon):
    n = rng.choice([1, 2, 4, 10])
    cols = {}
    for k in rng.sample(NAMES, rng.randint(1, 4)):
        l = [rng.choice([rng.randint(-5, 5), rng.uniform(-5, 5)]) for i in range(n)]
        cols[k] = rng.choice([list, tuple, lambda l: numpy.array(l, float), lambda l: numpy.array([round(v) for v in l])])(l)
    mon.describe("values(%r)" % cols)
    mon.nontrivial(["values", repr(cols)])
    before = snap(cols)
    src = dict(cols)
    d = gd.values(**src)
    named = {k: list(v) for k, v in cols.items()}
    mon.check(set(d.columns) == set(named) == set(d.columnnames) and all(samecol(list(d.columns[k]), named[k]) for k in named), "column-value", lambda: "columns %r" % d.columns)
    t = Table(None, named, n)
    if rng.random() < 0.4: record(rng, mon, d, t)
    r = ask(rng, mon, lambda q: gd.data(d, **q), t, "values(%r)" % cols)
    if r: chain(rng, mon, r[0], r[1], "values -> data(%r)" % r[2])
    if len(cols) > 1:
        k = rng.choice(sorted(cols))
        try: gd.values(**dict(src, **{k: list(src[k]) + [1]}))
        except ValueError: mon.count("ragged-values")
        else: mon.fail("ragged-values", "columns of different length accepted")
    mon.check(samesnap(before, snap(src)), "source-changed", lambda: "values are now %r" % src)
    mon.count("values-data")


# ---------------------------------------------------------------- functions
def axischoice(rng):
    "(axis arguments, kind, min, max)"
    kind = rng.choice(["lin", "lin", "log", "log", "logneg", "time"])
    if kind == "lin": lo = rng.uniform(-5, 5); hi = lo + rng.choice([1, 3, 10, 100])
    elif kind == "log": lo = 10**rng.uniform(-3, 2); hi = lo*10**rng.choice([0.5, 1, 3])
    elif kind == "logneg": hi = -10**rng.uniform(-3, 2); lo = hi*10**rng.choice([0.5, 1, 3])
    else:
        lo = datetime.datetime(2001, 2, 3, 4, 5, 6)
        hi = lo + datetime.timedelta(days=rng.choice([1, 30, 700]), seconds=rng.randrange(80000))
    return kind, lo, hi


def funcs(rng, mon):
    kind, lo, hi = axischoice(rng)
    rev = rng.random() < 0.3
    use = rng.choice(["fixed", "fixed", "data"]) if kind != "time" else "fixed"
    mk = {"lin": axis.lin, "log": axis.log, "logneg": axis.log, "time": timeaxis.timeaxis}[kind]
    akw = {"painter": None}
    if rev and kind != "time": akw["reverse"] = 1
    if use == "fixed": akw.update(min=lo, max=hi)
    ax = mk(**akw)
    # function
    n = rng.choice([2, 3, 5, 17, 100])
    xn, yn = rng.choice([("x", "y"), ("x", "y"), ("x", "y"), ("x2", "y"), ("y", "x"), ("x", "foo")])
    ctx = {}
    leaf = [(xn, lambda v: v)]
    if rng.random() < 0.4:
        ctx = {"c": rng.uniform(-2, 2), "f": ctxfuncs["f"]}
        leaf += [("c", lambda v: ctx["c"]), ("f(%s)" % xn, lambda v: 3*v+1)]
    if kind == "time":
        ex, f = "%s" % xn, lambda v: v
    else:
        while 1:
            ex, f = expression(rng, leaf)
            if "c" not in ctx or True: break
    sp = lambda: rng.choice(["", "", " "])
    fx = rng.random() < 0.2
    kw = {}
    if n != 100 or rng.random() < 0.5: kw["points"] = n
    pmin = pmax = None
    if rng.random() < 0.3: pmin = kw["min"] = lo + (hi-lo)*rng.uniform(0, 0.4)
    if rng.random() < 0.3: pmax = kw["max"] = lo + (hi-lo)*rng.uniform(0.5, 1)
    if fx:
        xn, yn = "x", "y"
        fun = rng.choice([lambda v: v, lambda v: [v][0]])
        if kind != "time": fun = rng.choice([lambda v: 2*v-1, lambda v: math.sqrt(v), lambda v: 1/(v-v)])
        f = fun
        s = "functionxy"
        d = gd.functionxy(fun, **kw)
    else:
        s = "%s%s(%s%s%s)%s=%s%s" % (sp(), yn, sp(), xn, sp(), sp(), sp(), ex)
        if ctx: kw["context"] = ctx
        if rng.random() < 0.3: kw["title"] = rng.choice([None, "t"])
        d = gd.function(s, **kw)
        mon.check(d.title == kw.get("title", s), "title", lambda: "title of %r is %r" % (s, d.title))
    mon.describe("function %r %r on %s axis %r..%r %s reverse=%r" % (s, kw, kind, lo, hi, use, rev))
    mon.nontrivial(["function", s, repr(sorted(kw)), kind, repr(lo), rev, use])
    mon.count("function-" + kind)
    ctx0 = dict(ctx)
    axs = {xn: ax}
    if xn == "x2":
        other = axis.lin(min=0, max=1, painter=None)
        if rng.random() < 0.5: axs = {"x": mk(**dict(akw))}; mon.count("function-linked")     # x2 is linked to x
        else: axs = {"x": other, "x2": ax}
    if xn == "y": g = plain(**{"y": ax})
    elif xn == "x": g = plain(**{"x": ax})
    else: g = plain(**axs)
    if use == "data":
        pts = [lo, hi] + [lo + (hi-lo)*rng.random() for i in range(3)]
        rng.shuffle(pts)
        an = xn if xn != "x2" or "x2" in axs else "x"
        oth = "y" if an != "y" else "x"
        g.plot(gd.values(**{an: pts, oth: [0.5]*5}), [graph.style.symbol(symbolattrs=[])])
    rec = Rec()
    order = rng.random() < 0.5
    g.plot([d], [rec])
    if use == "data": g.doranges()
    g.doplot()
    a = g.axes[xn]
    if use == "data":
        # the range of the other data; the axis may later be extended to ticks
        mon.count("function-datarange")
    V = lambda x: a.convert(x)
    pts = rec.points
    mon.check(len(pts) == n, "function-points", lambda: "%d points instead of %d" % (len(pts), n))
    xs = [p[xn] for p in pts]
    mon.check(all(set(p) == {xn, yn} for p in pts), "function-points", lambda: "point %r" % pts[0])
    # the limits
    tol = 1e-9
    vs = [V(x) for x in xs]
    vmin = V(pmin) if pmin is not None else V(lo)
    vmax = V(pmax) if pmax is not None else V(hi)
    mon.check(abs(vs[0]-vmin) <= tol and abs(vs[-1]-vmax) <= tol, "function-range", lambda: "points from graph coordinates %r to %r, expected %r to %r" % (vs[0], vs[-1], vmin, vmax))
    for i, v in enumerate(vs):
        w = vmin + (vmax-vmin)*i/(n-1)
        mon.check(abs(v-w) <= (1e-9 if kind != "time" else 1e-6), "function-spacing", lambda: "point %d of %d is at graph coordinate %r, expected %r" % (i, n, v, w))
    for p in pts:
        try: w = f(p[xn])
        except (ArithmeticError, ValueError): w = None
        if isinstance(w, complex): continue
        mon.check(same(p[yn], w), "function-value", lambda: "%s at %r is %r, expected %r" % (s, p[xn], p[yn], w))
        if w is None: mon.count("function-missing")
    mon.count("function-values", n)
    mon.check(ctx == ctx0, "context-changed", lambda: "context %r" % ctx)
    # the same data in another graph
    if rng.random() < 0.4:
        rec2 = Rec()
        g2 = plain(**{xn if xn != "x2" else "x2": mk(**dict(akw, min=lo, max=hi))}) if xn in ("x", "y") else None
        if g2 is not None:
            g2.plot(d, [rec2])
            g2.doplot()
            if use == "fixed":
                mon.check(samecol([p[xn] for p in rec2.points], xs) and samecol([p[yn] for p in rec2.points], [p[yn] for p in pts]), "unequal-results", lambda: "another graph sees %r" % rec2.points[:3])
                mon.count("function-again")
            elif pmin is None: mon.check(abs(g2.axes[xn].convert(rec2.points[0][xn]) - (1 if rev else 0)) < tol, "function-range", lambda: "in another graph the function starts at %r" % rec2.points[0])


def params(rng, mon):
    lo = rng.uniform(-3, 3)
    hi = lo + rng.choice([1, 5, -2])
    n = rng.choice([2, 3, 10, 100])
    var = rng.choice(["k", "t", "phi"])
    ctx = {"c": rng.uniform(-2, 2)} if rng.random() < 0.4 else {}
    leaf = [(var, lambda v: v)] + ([("c", lambda v: ctx["c"])] if ctx else [])
    m = rng.choice([2, 2, 3])
    keys = rng.sample(["x", "y", "z", "color"], m)
    if rng.random() < 0.25:
        m, keys = 2, ["x", "y"]
        fs = [lambda v: 2*v, lambda v: v*v]
        s = "paramfunctionxy"
        d = gd.paramfunctionxy(lambda t: (2*t, t*t), lo, hi, points=n)
        kw = {}
    else:
        exs = [expression(rng, leaf) for k in keys]
        fs = [e[1] for e in exs]
        try:
            for i in range(n):
                for f in fs:
                    if isinstance(f(lo+(hi-lo)*i/(n-1.0)), complex): raise Skip("complex")
        except (ArithmeticError, ValueError, TypeError): raise Skip("not everywhere defined")
        sep = rng.choice([", ", ","])
        s = "%s%s=%s%s" % (sep.join(keys), rng.choice(["", " "]), rng.choice(["", " "]), sep.join(e[0] for e in exs))
        kw = {"points": n}
        if ctx: kw["context"] = ctx
        if rng.random() < 0.3: kw["title"] = rng.choice([None, "t"])
        mon.describe("paramfunction %r %s=%r..%r %r" % (s, var, lo, hi, kw))
        d = gd.paramfunction(var, lo, hi, s, **kw)
        mon.check(d.title == kw.get("title", s), "title", lambda: "title %r" % d.title)
    mon.describe("paramfunction %r %s=%r..%r points=%d %r" % (s, var, lo, hi, n, kw))
    mon.nontrivial(["param", s, lo, hi, n])
    mon.check(set(d.columns) == set(keys) == set(d.columnnames), "columns-set", lambda: "columns %r" % sorted(d.columns))
    named = {}
    for k, f in zip(keys, fs):
        named[k] = [f(lo+(hi-lo)*i/(n-1.0)) for i in range(n)]
        got = list(d.columns[k])
        mon.check(samecol(got, named[k]), "param-value", lambda: "column %s is %r, expected %r" % (k, got, named[k]))
    mon.check(set(ctx) <= {"c"}, "context-changed", lambda: repr(ctx))
    mon.count("param-values", n*m)
    t = Table(None, named, n)
    if rng.random() < 0.5: record(rng, mon, d, t)
    if rng.random() < 0.5:
        r = ask(rng, mon, lambda q: gd.data(d, **q), t, "paramfunction %r" % s)
        if r: again(rng, mon, lambda q: gd.data(d, **q), r[2], r[0])


# ---------------------------------------------------------------- config files
def confs(rng, mon):
    ns = rng.randint(1, 6)
    secs = rng.sample(["sec%d" % i for i in range(12)] + ["Alpha", "beta one", "_z", "10", "9"], ns)
    opts = rng.sample(NAMES + ["opt-1"], rng.randint(1, 5))
    lines = [rng.choice(["", "# a comment", "; another"])]
    tab = {}
    defaults = {}
    if rng.random() < 0.2:
        lines.append("[DEFAULT]")
        o = rng.choice(opts)
        defaults[o] = 1.5
        lines.append("%s = 1.5" % o)
    blocks = list(secs)
    if rng.random() < 0.3: blocks.append(rng.choice(secs))
    full = rng.random() < 0.5
    for b in blocks:
        tab.setdefault(b, dict(defaults))
        lines.append("[%s]" % b)
        for o in rng.sample(opts, len(opts) if full else rng.randint(0, len(opts))):
            s = rng.choice(NUM + ["eins", "two words", "1,5"])
            try: v = float(s)
            except ValueError: v = s
            tab[b][o] = v
            lines.append("%s%s%s" % (o, rng.choice(["=", " = ", ": "]), s))
            if rng.random() < 0.2: lines.append(rng.choice(["", "# comment"]))
    txt = "\n".join(lines) + "\n"
    order = sorted(tab)
    have = [o for o in opts if any(o in tab[s] for s in tab)]
    named = {o: [tab[s].get(o) for s in order] for o in have}
    t = Table([order], named, len(order))
    mon.describe("conffile %r" % txt)
    mon.nontrivial(["conf", txt])
    if rng.random() < 0.5:
        name = os.path.join(mon.tmp, "conf%d.dat" % rng.randrange(10**9))
        with open(name, "w") as f: f.write(txt)
        make = lambda q: gd.conffile(name, **q)
    else: make = lambda q: gd.conffile(io.StringIO(txt), **q)
    for k in range(2):
        r = ask(rng, mon, make, t, "conffile %r" % txt)
        if r is None: continue
        d, t2, q = r
        mon.count("conf")
        if any(v is None for c in named.values() for v in c): mon.count("conf-missing")
        if rng.random() < 0.3: chain(rng, mon, d, t2, "conffile %r" % txt)
        if rng.random() < 0.3: record(rng, mon, d, t2)
        again(rng, mon, make, q, d)


# ---------------------------------------------------------------- cbd files
def cbds(rng, mon):
    nseg = rng.randint(1, 4)
    segs = []
    for k in range(nseg):
        x, y = rng.randint(-170*3600, 170*3600), rng.randint(-80*3600, 80*3600)
        pts = [(x, y)]
        strokes = b""
        for i in range(rng.randint(0, 12)):
            if rng.random() < 0.6:
                # dx and dy in one byte each; bit 6 of the second byte marks short strokes, its bit 7 the sign
                dy, dx = rng.randint(-128, 127), rng.randint(-64, 63)
                strokes += struct.pack("<bB", dy, dx+64 if dx >= 0 else dx+256)
                mon.count("cbd-short")
            else:
                dx, dy = rng.randint(-2**20, 2**20), rng.randint(-2**20, 2**20)
                bx, by = struct.pack("<i", dx), struct.pack("<i", dy)
                # the most significant byte comes second in the file with bit 6 cleared
                strokes += bytes([bx[2], bx[3] & 0xbf]) + bytes([bx[0], bx[1]]) + bytes([by[2], by[3]]) + bytes([by[0], by[1]])
                mon.count("cbd-long")
            pts.append((pts[-1][0]+dx, pts[-1][1]+dy))
        segs.append((pts, strokes, rng.randint(1, 5)))
    addr = 40
    blob, dictb = b"", b""
    order = list(range(nseg))
    rng.shuffle(order)
    dl = {}
    for k in order:
        pts, strokes, rank = segs[k]
        seg = struct.pack("<3i2h", pts[0][0], pts[0][1], k+1, len(pts)-1, 0) + strokes
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        dl[k] = struct.pack("<6i2h", k+1, max(ys), min(ys), max(xs), min(xs), addr+len(blob), len(seg), rank)
        blob += seg
    dictb = b"".join(dl[k] for k in range(nseg))
    data = struct.pack("<5i20s", 0x20770002, addr+len(blob), nseg, 28, nseg, b"") + blob + dictb
    kw = {}
    lo = hi = None
    if rng.random() < 0.4: lo = kw["minrank"] = rng.randint(1, 4)
    if rng.random() < 0.4: hi = kw["maxrank"] = rng.randint(2, 5)
    rows = []
    for pts, strokes, rank in segs:
        if lo is not None and rank < lo or hi is not None and rank > hi: continue
        if rows: rows.append((None, None))
        xs = [p[0] for p in pts]
        if min(xs) < -150*3600 and max(xs) > 150*3600: pts = [(x if x >= 0 else x+360*3600, y) for x, y in pts]
        rows += [(x/3600.0, y/3600.0) for x, y in pts]
    if not rows: raise Skip("no segment")
    mon.describe("cbdfile %s %r" % (data.hex(), kw))
    mon.nontrivial(["cbd", data.hex(), repr(kw)])
    if rng.random() < 0.5:
        name = os.path.join(mon.tmp, "cbd%d.dat" % rng.randrange(10**9))
        with open(name, "wb") as f: f.write(data)
        d = gd.cbdfile(name, x=1, y=2, row=0, **kw)
        d2 = gd.cbdfile(name, x=1, y=2, row=0, **kw)
        mon.check(samesnap(snap(dict(d.columns)), snap(dict(d2.columns))), "unequal-results", "second request differs")
    else: d = gd.cbdfile(io.BytesIO(data), x=1, y=2, row=0, **kw)
    mon.check(list(d.columns["row"]) == list(range(1, len(rows)+1)), "cbd-rows", lambda: "%d rows expected, got %r" % (len(rows), d.columns["row"]))
    for j, k in enumerate("xy"):
        mon.check(samecol(list(d.columns[k]), [r[j] for r in rows]), "cbd-value", lambda: "column %s is %r, expected %r" % (k, d.columns[k], [r[j] for r in rows]))
    mon.count("cbd")
    mon.count("cbd-values", len(rows))


# ---------------------------------------------------------------- joins
def joins(rng, mon):
    parts, named, n = [], {}, 0
    cols = rng.sample(NAMES[:6], rng.randint(2, 4))
    titles = []
    fn = None
    full = rng.random() < 0.4
    dyn = rng.random() < 0.3
    for k in range(rng.randint(1, 4)):
        m = rng.choice([1, 2, 3, 6])
        use = cols if full else rng.sample(cols, rng.randint(1, len(cols)))
        vals = {c: [rng.choice([rng.uniform(0, 1), rng.randint(0, 5), None, "s"]) for i in range(m)] for c in use}
        t = rng.choice(["t%d" % k, None, "x"])
        parts.append((gd.values(title=t, **vals), use, vals, m, t))
    if dyn: parts.insert(rng.randint(0, len(parts)), (gd.function("y(x)=x*x", points=5), [], {}, 0, "y(x)=x*x"))
    allc = sorted({c for p in parts for c in p[1]})
    want = {c: [] for c in allc}
    for d, use, vals, m, t in parts:
        for c in allc: want[c] += vals[c] if c in use else [None]*m
    n = sum(p[3] for p in parts)
    kw = {}
    if rng.random() < 0.4: kw["title"] = rng.choice([None, "joined"])
    mon.describe("join of %r %r" % ([(p[1], p[2], p[4]) for p in parts], kw))
    mon.nontrivial(["join", repr([(p[2], p[4]) for p in parts])])
    before = [snap(dict(p[0].columns)) for p in parts]
    srcs = [p[0] for p in parts]
    j = gd.join(srcs, **kw)
    names = set(allc) | ({"x", "y"} if dyn else set())
    mon.check(set(j.columns) == set(allc) and set(j.columnnames) == names, "columns-set", lambda: "columns %r names %r" % (sorted(j.columns), j.columnnames))
    for c in allc: mon.check(samecol(j.columns[c], want[c]), "join-value", lambda: "column %s is %r, expected %r" % (c, j.columns[c], want[c]))
    if "title" in kw: mon.check(j.title == kw["title"], "title", lambda: repr(j.title))
    else: mon.check(all(p[4] in j.title for p in parts if p[4]), "title", lambda: "title %r" % j.title)
    rec = Rec()
    g = plain()
    g.plot(j, [rec])
    g.doplot()
    pts = rec.points
    for i in range(n):
        mon.check(all(same(pts[i].get(c), want[c][i]) for c in allc), "points-drawn", lambda: "point %d is %r" % (i, pts[i]))
    if dyn:
        tail = pts[-5:]
        mon.check(len(pts) == n+1+5 if n else len(pts) == 5, "points-drawn", lambda: "%d points drawn for %d static and 5 dynamic points" % (len(pts), n))
        for i, p in enumerate(tail): mon.check(abs(p["x"]-i/4) < 1e-12 and abs(p["y"]-(i/4)**2) < 1e-12 and all(p.get(c) is None for c in allc), "points-drawn", lambda: "dynamic point %d is %r" % (i, p))
        if n: mon.check(all(v is None for v in pts[n].values()), "points-drawn", lambda: "separating point is %r" % pts[n])
        mon.count("join-dynamic")
    else: mon.check(len(pts) == n, "points-drawn", lambda: "%d points drawn for %d" % (len(pts), n))
    t = Table(None, want, n)
    if not dyn:
        r = ask(rng, mon, lambda q: gd.data(j, **q), t, "join of %r" % [p[2] for p in parts])
    mon.check([snap(dict(p[0].columns)) for p in parts] == before or all(samesnap(snap(dict(p[0].columns)), b) for p, b in zip(parts, before)), "source-changed", "a joined source changed")
    mon.count("joins")


# ---------------------------------------------------------------- plotting leaves the data alone
def plotting(rng, mon):
    n = rng.choice([2, 5, 9])
    num = lambda: rng.uniform(0.05, 0.95)
    cols = {"x": sorted(num() for i in range(n)), "y": [num() for i in range(n)]}
    style = rng.choice(["symbol", "line", "symbol+line", "errorbar", "errorbar", "impulses", "arrow", "histogram", "histogram", "rect", "bar", "stack", "density", "surface", "gridline"])
    st = graph.style
    mk = lambda: gd.values(**cols)
    g = plain
    if style == "errorbar":
        r = rng.random()
        if r < 0.3: cols["dy"] = [num()/10 for i in range(n)]
        elif r < 0.6: cols.update(dymin=[num()/10 for i in range(n)], dxmax=[num()/10 for i in range(n)])
        else: cols.update(ymin=[v-0.02 for v in cols["y"]], ymax=[v+0.02 for v in cols["y"]])
        styles = [st.symbol(), st.errorbar()]
    elif style == "impulses": styles = [st.impulses()]
    elif style == "arrow":
        cols.update(size=[num() for i in range(n)], angle=[num()*360 for i in range(n)])
        styles = [st.arrow()]
    elif style == "histogram":
        cols["x"] = [(i+0.5)/n for i in range(n)]
        styles = [st.histogram(steps=rng.randrange(2), fillable=rng.randrange(2))]
    elif style == "rect":
        cols.clear()
        lo = [num()/2 for i in range(n)]
        lo2 = [num()/2 for i in range(n)]
        cols.update(xmin=lo, xmax=[v+0.3 for v in lo], ymin=lo2, ymax=[v+0.2 for v in lo2], color=[num() for i in range(n)])
        styles = [st.rect(gradient=__import__("pyx").color.gradient.Jet)]
    elif style in ("bar", "stack"):
        cols = {"xname": ["n%d" % i for i in range(n)], "y": [num() for i in range(n)]}
        if style == "stack": cols["stack"] = [num()/3 for i in range(n)]
        styles = [st.barpos(fromvalue=0), st.bar()] if style == "bar" else [st.barpos(fromvalue=0), st.stackedbarpos("stack"), st.bar()]
        g = lambda: plain(x=axis.bar(painter=None), y=axis.lin(min=0, max=2, painter=None))
    elif style in ("density", "surface", "gridline"):
        k = 3
        pts = [(i/k, j/k) for i in range(k) for j in range(k)]
        cols = {"x": [p[0] for p in pts], "y": [p[1] for p in pts], "color": [num() for p in pts]}
        n = len(pts)
        if style == "density": styles = [st.density(epsilon=1e-10, keygraph=None)]
        elif style == "surface":
            cols["z"] = [num() for p in pts]
            styles = [st.surface(keygraph=None)]
            if rng.random() < 0.5: del cols["color"]; styles = [st.surface(gradient=None, gridcolor=__import__("pyx").color.rgb.red)] if False else [st.grid()]
            g = lambda: graph.graphxyz(size=4, x=axis.lin(min=0, max=1, painter=None), y=axis.lin(min=0, max=1, painter=None), z=axis.lin(min=0, max=1, painter=None))
        else: styles = [st.grid()]; del cols["color"]
    else: styles = {"symbol": [st.symbol()], "line": [st.line()], "symbol+line": [st.symbol(), st.line()]}[style]
    if style not in ("bar", "stack", "density", "surface", "gridline", "rect", "histogram") and rng.random() < 0.5:
        cols["y"][rng.randrange(n)] = None
    arr = rng.random() < 0.3
    cols = {k: numpy.array(v) if arr and all(isinstance(x, float) for x in v) else rng.choice([list, tuple])(v) for k, v in cols.items()}
    before = snap(cols)
    mon.describe("plot of %r with %s" % (cols, style))
    mon.nontrivial(["plot", style, repr(cols)])
    d = gd.values(**cols)
    if rng.random() < 0.4: d = gd.data(d, extra="1")
    cb = snap(dict(d.columns))
    gr = g()
    gr.plot([d] if rng.random() < 0.7 else [d, d] if style not in ("stack",) else [d], styles + [Rec()] if rng.random() < 0.5 else styles)
    gr.writeSVGfile(io.BytesIO()) if rng.random() < 0.3 else gr.writePDFfile(io.BytesIO()) if rng.random() < 0.5 else gr.writeEPSfile(io.BytesIO())
    mon.check(samesnap(before, snap(cols)), "source-changed", lambda: "after plotting with %s the values are %r" % (style, cols))
    mon.check(samesnap(cb, snap(dict(d.columns))), "source-changed", lambda: "after plotting with %s the columns are %r" % (style, d.columns))
    mon.count("plotted-" + style)


# ---------------------------------------------------------------- directed
def d_call(rng, mon):
    "documented examples"
    d = gd.file(io.StringIO("# A   B C\n1.234 1 2\n5.678 3 4\n"), a=1, b="B", c="2*B+$3")
    mon.check(d.columns["a"] == [1.234, 5.678] and d.columns["b"] == [1, 3] and d.columns["c"] == [4, 10] and set(d.columns) == set("abcABC"), "documented-example", lambda: repr(d.columns))
    d = gd.file(io.StringIO("# A   B C\n1.234 1 2\n5.678 3 4\n"), a=1, copy=0)
    mon.check(set(d.columns) == {"a"}, "documented-example", lambda: repr(d.columns))
    for v in (-1, 0, 1, 1.5, 2, 3, 4, 5, 6, 7):
        for sp in ((1,), (1, 2), (1, 2, 4), (1, 2, 4, 6)):
            got = gd.splitatvalue(v, *sp)
            mon.check(got == _split(v, *sp), "splitatvalue", lambda: "splitatvalue(%r, %r) is %r" % (v, sp, got))
            d = gd.data(gd.values(a=[v]), b="splitatvalue(a, %s)" % ", ".join(map(str, sp)))
            mon.check(d.columns["b"] == [_split(v, *sp)], "splitatvalue", lambda: "splitatvalue(%r, %r) is %r" % (v, sp, d.columns["b"]))
    for s in ("y(x)", "x", "y=x", "=3"):
        try: gd.function(s)
        except ValueError: pass
        else: mon.fail("function-refused", "function(%r) accepted" % s)
    try: gd.function("y(x)=x", context={"x": 1})
    except ValueError: pass
    else: mon.fail("function-refused", "variable in context accepted")
    mon.count("call")


def d_readonce(rng, mon):
    "the file is read only once; other options and classes of the same file do not interfere"
    name = os.path.join(mon.tmp, "once.dat")
    with open(name, "w") as f: f.write("#a b\n1 2\n3 4\n5 6\n")
    d1 = gd.file(name, x=1, y="a")
    with open(name, "w") as f: f.write("#a b\n10 20\n")
    d2 = gd.file(name, x=1, y="a")
    d3 = gd.file(name, x=2, y="2*a", title=None)
    mon.check(d1.columns["x"] == d2.columns["x"] == [1, 3, 5] and d3.columns["x"] == [2, 4, 6] and d3.columns["y"] == [2, 6, 10], "read-once", lambda: "%r %r %r" % (d1.columns, d2.columns, d3.columns))
    os.remove(name)
    mon.count("call")


PARTS = [(files, 30), (pointlist, 14), (valuecols, 8), (funcs, 16), (params, 8), (confs, 8), (cbds, 5), (joins, 8), (plotting, 8)]


def run_case(kind, i, rng, mon):
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    k = rng.randrange(sum(w for f, w in PARTS))
    for f, w in PARTS:
        if k < w: break
        k -= w
    mon.describe(f.__name__)
    f(rng, mon)
