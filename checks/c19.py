"""C19: each TeX text gets the output of its own expression.

Random histories on one or several TeX/LaTeX engines: preambles, texts with all text
attributes, markers, failing texts, transformations, resets and output writes in between.
The reference typesets the same expressions itself, in a file of its own for each session
with its own constructs for the attributes, and reads the result with an independent DVI
interpreter; compared are extents, markers and every glyph and rule of the written files."""
import math, os, re, subprocess, shutil
import dvi, pub, geo, harness
from pyx import canvas, document, text, trafo, unit, color, style

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("random histories of preambles, texts (contents, attributes, transformations, markers, global and local definitions, failing texts), resets and writes on one to three TeX and LaTeX engines with and without texipc; "
        "extents, markers, glyphs and rules compared with own TeX runs of the same expressions; distinct by history")
QUICK, THOROUGH = 150, 4200
CPU = 200
REQUIRED = {"attr-halign": 80, "attr-mathmode": 38, "attr-parbox": 54, "attr-phantom": 20, "attr-size": 70, "attr-valign": 50, "attr-vshift": 50, "compared": 400, "failed-text": 25, "glyph": 5000, "marker": 25, "restart": 20,
            "reset-False": 8, "reset-True": 9, "rule": 150, "sessions": 100, "text-ipc": 45, "text-latex": 90, "text-tex": 230, "transform": 18, "transform-read": 6, "write-eps": 27, "write-pdf": 45, "write-ps": 20, "xscale": 10}
DIRECTED = ["failedfirst", "failedmiddle", "failedonly", "failedlast", "failedipc", "mixed", "many", "twiceorder", "resetopen", "encodings"]
SX = 72/72.27
WORDS = ["abc", "AVAWA To", "office fluff", "Typesetting", "word", "q,;.!", "--- 12-14", "(x)", "Hello World", "i", "{\\it slanted} up", "{\\bf bold}", "x{\\tt tt}", "\\char65\\char'102", "a\\kern3pt b\\kern-1pt c", "a\\raise2pt\\hbox{up}b",
         "a\\lower 3.3pt\\hbox{down}", "\\vrule width 3pt height 5pt depth 1pt", "a\\vrule width 0.4pt b", "\\hbox to 40pt{a\\hfil b\\hfil c}", "\\underbar{under}", "\\'e\\\"a", "\\ae\\ss\\O", "a~b\\quad c", "\\kern-4pt n",
         "\\hskip 1em plus 2fil y", "$a+b$", "$\\alpha_i^2$", "$\\sqrt{x^2+1}$", "$\\sum_{i=1}^n i$", "$x\\over y+1$", "$\\left(\\int_0^1 f\\right)$", "\\vbox{\\hbox{top}\\hbox{bottom}}", "\\vtop{\\hbox{one}\\hbox{two}}", "\\rlap{/}o", "\\hrule" ]
MATH = ["a+b", "\\alpha_i^2", "\\sum_{i=1}^n i", "{x\\over y+1}", "\\int_0^\\infty e^{-x^2}dx", "x", "\\Gamma(n)=n!", "\\hbox{text}", "\\left[{a\\atop b}\\right]", "1"]
FAIL = ["\\undefinedmacro", "abc\\nope def", "\\message{surprise}x", "a\\showbox99 b", "\\immediate\\write16{something unexpected}y", "\\errmessage{no}", "\xe4\u20ac\u03b1", "\\count1=x", "\\font\\nofont=nosuchfontatall \\nofont a"]
SIZES = ["tiny", "scriptsize", "footnotesize", "small", "normalsize", "large", "Large", "LARGE", "huge", "Huge"]


class Text:
    "one text: pyx arguments, the reference source, placement"


class Session:
    def __init__(self, eng, preambles):
        self.eng, self.preambles, self.texts, self.done = eng, list(preambles), [], False


class Engine:
    def __init__(self, kind, opts, ipc):
        self.kind, self.opts, self.ipc = kind, opts, ipc
        kw = dict(opts)
        if ipc: kw["texipc"] = 1
        self.real = text.TexEngine(**kw) if kind == "tex" else text.LatexEngine(**kw)
        self.preambles = []
        self.session = Session(self, [])
        self.typeset = False


def reference(mon, s):
    "typeset the texts of a session -> [(wd, ht, dp in bp, page)]"
    e = s.eng
    d = os.path.join(mon.tmp, "ref%d" % id(s)); os.makedirs(d, exist_ok=True)
    L = ["\\def\\PyXMarker#1{\\hskip0pt\\special{M #1}}"]
    if e.kind == "tex":
        lfs = e.opts.get("lfs", "10pt")
        if lfs:
            with open(os.path.join(os.path.dirname(text.__file__), "data", "lfs", lfs+".lfs")) as f: L += [f.read(), "\\normalsize"]
        L += ["\\newdimen\\linewidth", "\\newdimen\\textwidth"]
    else: L.append("\\documentclass%s{%s}" % ("[%s]" % e.opts["docopt"] if e.opts.get("docopt") else "", e.opts.get("docclass", "article")))
    L.append("\\newdimen\\refdim\\newdimen\\refdimb\\newbox\\refbox\\newbox\\refboxb\\newbox\\refboxc")
    L += s.preambles
    if e.kind == "latex": L.append("\\begin{document}")
    for i, t in enumerate(s.texts):
        if t.fails: continue
        L.append("\\setbox\\refbox=\\hbox{{%s%%\n}}\\immediate\\write16{REF:%d:\\the\\wd\\refbox:\\the\\ht\\refbox:\\the\\dp\\refbox:}\\ht\\refbox0pt\\count0=%d\\shipout\\hbox{\\special{ORIGIN}\\box\\refbox}" % (t.ref, i, i))
    L.append("\\end" if e.kind == "tex" else "\\end{document}")
    with open(os.path.join(d, "r.tex"), "w", encoding="latin1") as f: f.write("\n".join(L)+"\n")
    r = subprocess.run([e.kind, "-interaction=nonstopmode", "r.tex"], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=100).stdout.decode("latin1")
    n = sum(not t.fails for t in s.texts)
    if re.search(r"^! ", r, re.M): raise RuntimeError("reference run reports an error: " + r[-2000:])
    ext = {int(m[0]): [float(x)*SX for x in m[1:]] for m in re.findall(r"REF:(\d+):([-\d.]+)pt:([-\d.]+)pt:([-\d.]+)pt:", r.replace("\n", ""))}
    if len(ext) != n: raise RuntimeError("reference run: %d of %d texts\n%s" % (len(ext), n, r[-2000:]))
    pages = {}
    if n:
        with open(os.path.join(d, "r.dvi"), "rb") as f: D = dvi.DVI(f.read())
        for p in D.pages: pages[p.counts[0]] = p
    shutil.rmtree(d)
    for i, t in enumerate(s.texts):
        if t.fails: continue
        p = pages[i]
        o = [x[1:] for x in p.specials if x[0] == "ORIGIN"][0]
        t.extent = ext[i]
        t.chars = [(c.font, c.size, c.code, c.x-o[0], c.y-o[1]) for c in p.chars]
        t.rules = [(r[0]-o[0], r[1]-o[1], r[2], r[3]) for r in p.rules]
        t.markers = {x[0][2:]: (x[1]-o[0], x[2]-o[1]) for x in p.specials if x[0].startswith("M ")}
    mon.count("ref-runs"); mon.count("ref-texts", n)


def content(rng, e, math=False, once=True, inbox=False):
    "-> TeX source"
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if math: out.append(rng.choice(MATH)); continue
        r = rng.random()
        if r < 0.55: w = rng.choice(WORDS[:-1])
        elif r < 0.65 and once: w = "\\global\\advance\\cnt by 1 n\\number\\cnt."
        elif r < 0.7: w = "\\def\\loc{L%d}\\loc" % rng.randint(0, 9)
        elif r < 0.76: w = "\\ifx\\loc\\undefined U\\else D\\fi"
        elif r < 0.81: w = "\\gdef\\glob{G%d}" % rng.randint(0, 9)
        elif r < 0.86: w = "\\glob"
        elif r < 0.92: w = rng.choice(["\\macA{%d}" % rng.randint(0, 99), "\\macB"])
        elif r < 0.96: w = rng.choice(["a% comment } with a brace\nb", "x\ny", "a%\n  b", "trailing % comment", "sp  ace "])
        else: w = "{\\hskip 2pt\\relax a   b}"
        out.append(w + "{}" if re.search(r"\\[A-Za-z]+$", w) and not math else w)
    s = ("+" if math else rng.choice([" ", "", "\\ ", " "])).join(w + ("\n" if "comment" in w and w.endswith("comment") else "") for w in out)
    return s


def fmt5(x): return "%.5f" % x


def rtext(rng, e, allowmarker=True):
    t = Text(); t.fails = False; t.eng = e
    has = {k: rng.random() < p for k, p in (("size", 0.3), ("vshift", 0.2), ("valign", 0.2), ("parbox", 0.25), ("halign", 0.35), ("mathmode", 0.15), ("phantom", 0.08))}
    expr = content(rng, e, has["mathmode"], once=not has["parbox"])
    if has["parbox"] and not has["mathmode"]: expr = " ".join([expr]+[rng.choice(WORDS[:24]) for _ in range(rng.randint(3, 12))])
    t.markernames = []
    if allowmarker and rng.random() < 0.3 and not has["phantom"] and not has["parbox"]:
        for k in range(rng.choice([1, 1, 2])):
            n = rng.choice(["m", "ab", "pos%d" % k, "X1"]) + str(k); t.markernames.append(n)
            m = "\\PyXMarker{%s}" % n
            if has["mathmode"]: expr = expr + "+" + rng.choice(MATH) + "\\hbox{%s}" % m if k else "\\hbox{%s}" % m + expr
            else: expr = expr + m + rng.choice(["", "z", " z"]) if k or rng.random() < 0.5 else m + expr
    t.expr = expr
    attrs, ref = [], expr
    local = []
    t.h = 0
    if has["halign"]:
        h, f = round(rng.choice([0, 0.5, 1, rng.uniform(-0.5, 1.5)]), 5), round(rng.choice([0, 0.5, 1, rng.random()]), 5)
        kind = rng.choice(["box", "flush", "both", "both2"])
        if kind in ("flush", "both", "both2") and kind != "both":
            f = rng.choice([0, 0.5, 1]); 
        rag = lambda f: "\\leftskip0pt plus %sfil \\rightskip0pt plus %sfil \\parfillskip0pt \\pretolerance9999 \\tolerance9999 \\parindent0pt \\hyphenpenalty9999 \\exhyphenpenalty9999 " % (fmt5(f), fmt5(1-f))
        if kind == "box":
            a = text.boxhalign(h) if h not in (0, 0.5, 1) else {0: text.halign.boxleft, 0.5: text.halign.boxcenter, 1: text.halign.boxright}[h]
            t.h = h; local.append((a, lambda x: x))
        elif kind == "flush": local.append(({0: text.halign.flushleft, 0.5: text.halign.flushcenter, 1: text.halign.flushright}[f], lambda x: rag(f)+x))
        elif kind == "both": t.h = h; local.append((text.halign(h, f), lambda x: rag(f)+x))
        else: t.h = f; local.append(({0: text.halign.left, 0.5: text.halign.center, 1: text.halign.right}[f], lambda x: rag(f)+x))
    if has["mathmode"]: local.append((text.mathmode, lambda x: "$\\displaystyle{%s}$" % x))
    if has["phantom"]: local.append((text.phantom, lambda x: "\\phantom{%s}" % x))
    if has["mathmode"] and has["halign"] and rng.random() < 0.7: local.sort(key=lambda p: p[0] is text.mathmode)
    elif has["phantom"] and has["mathmode"]: rng.shuffle(local)
    if has["phantom"] and has["halign"]:
        # inside of a phantom in mathmode everything may be typeset several times; alignments stay outside
        local.sort(key=lambda p: p[0] in (text.mathmode, text.phantom))
    for a, wrap in reversed(local): ref = wrap(ref)
    if has["parbox"]:
        w = round(rng.uniform(2, 6), 3); b = rng.choice([text.parbox.top, text.parbox.middle, text.parbox.bottom])
        tp = fmt5(unit.topt(w*unit.t_cm)*72.27/72/t_scale())
        box = lambda v, x: "\\%s{\\hsize%struept \\linewidth\\hsize\\textwidth\\hsize{}%s}" % (v, tp, x)
        if b == text.parbox.top: ref = "\\linewidth%struept " % tp + box("vtop", ref)
        elif b == text.parbox.bottom: ref = "\\linewidth%struept " % tp + box("vbox", ref)
        else:
            ref = "\\linewidth%struept \\setbox\\refboxb\\hbox{{%s}}\\setbox\\refboxc\\hbox{{%s}}\\refdim=0.5\\dp\\refboxb\\refdimb=0.5\\dp\\refboxc\\advance\\refdim-\\refdimb\\lower\\refdim\\box\\refboxc" % (tp, box("vtop", ref), box("vbox", ref))
        p = text.parbox(w*unit.t_cm, baseline=b) if rng.random() < 0.6 else text.parbox_pt(unit.topt(w*unit.t_cm), baseline=b)
        attrs.append(p)
    if has["valign"]:
        v = round(rng.choice([0, 0.5, 1, rng.random()]), 5)
        ref = "\\setbox\\refboxb\\hbox{{%s}}\\refdim=%s\\ht\\refboxb\\refdimb=%s\\dp\\refboxb\\advance\\refdim-\\refdimb\\lower\\refdim\\box\\refboxb" % (ref, fmt5(1-v), fmt5(v))
        attrs.append({0: text.valign.top, 0.5: text.valign.middle, 1: text.valign.bottom}.get(v, text.valign(v)))
    if has["vshift"]:
        if rng.random() < 0.4:
            ref = "$\\global\\refdim=\\fontdimen22\\textfont2$\\lower\\refdim\\hbox{{%s}}" % ref
            attrs.append(text.vshift.mathaxis)
        else:
            r, hs = rng.choice([(0, "0"), (0.5, "0"), (1, "0"), (round(rng.uniform(-1, 2), 5), rng.choice(["0", "x", "Q", "\\bf l"]))])
            ref = "\\setbox\\refboxb\\hbox{{%s}}\\refdim=%s\\ht\\refboxb\\lower\\refdim\\hbox{{%s}}" % (hs, fmt5(r), ref)
            attrs.append({0: text.vshift.bottomzero, 0.5: text.vshift.middlezero, 1: text.vshift.topzero}[r] if r in (0, 0.5, 1) and hs == "0" else text.vshift(r, hs))
    if has["size"]:
        if e.kind == "tex" and e.opts.get("lfs", "10pt") is None: pass
        else:
            n = rng.choice(SIZES)
            ref = "\\%s{}%s" % (n, ref)
            attrs.append(getattr(text.size, n) if rng.random() < 0.6 else text.size(sizename=n))
    rng.shuffle(attrs)
    k = rng.randint(0, len(attrs))
    loc = [a for a, wrap in local]
    attrs = attrs[:k]+loc+attrs[k:] if rng.random() < 0.5 else [x for x in attrs] + loc
    t.ref = ref
    t.T = geo.IDENT
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2])):
            tr, m = rlinear(rng)
            attrs.insert(rng.randint(0, len(attrs)), tr)
        # the order of the transformations is the order in the list
        for a in attrs:
            if isinstance(a, trafo.trafo_pt): t.T = geo.mul(t.T, mat(a))
    t.color = None
    if rng.random() < 0.25:
        c = tuple(round(rng.random(), 2) for _ in range(3)); attrs.insert(rng.randint(0, len(attrs)), color.rgb(*c)); t.color = c
    t.attrs = attrs
    t.x, t.y = round(rng.uniform(-200, 300), 3), round(rng.uniform(-200, 300), 3)
    t.single = rng.random() < 0.35
    t.fails = False
    t.local = geo.mul(t.T, (1, 0, 0, 1, t.x, t.y))
    t.kinds = [k for k in has if has[k]]
    return t


def t_scale(): return SCALE[0]


SCALE = [1]


def mat(t):
    o, a, b = t.apply_pt(0, 0), t.apply_pt(1, 0), t.apply_pt(0, 1)
    return (a[0]-o[0], a[1]-o[1], b[0]-o[0], b[1]-o[1], o[0], o[1])


def rlinear(rng):
    k = rng.choice(["rotate", "scale", "aniso", "mirror", "matrix"])
    if k == "rotate": a = rng.choice([90, 180, 45, rng.uniform(-180, 180)]); t = trafo.rotate(a); c, s = math.cos(math.radians(a)), math.sin(math.radians(a)); m = (c, s, -s, c, 0, 0)
    elif k == "scale": f = rng.uniform(0.3, 3); t = trafo.scale(f); m = (f, 0, 0, f, 0, 0)
    elif k == "aniso": f, g = rng.uniform(0.3, 3), rng.uniform(-2, 2) or 1; t = trafo.scale(f, g); m = (f, 0, 0, g, 0, 0)
    elif k == "mirror": t = trafo.mirror(0); m = (1, 0, 0, -1, 0, 0)
    else: a, b, c, d = 1, rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5), rng.uniform(0.6, 1.5); t = trafo.trafo(matrix=((a, b), (c, d))); m = (a, c, b, d, 0, 0)
    return t, m


def raffine(rng):
    t, m = rlinear(rng)
    if rng.random() < 0.6:
        dx, dy = rng.uniform(-80, 80), rng.uniform(-80, 80)
        t = t.translated_pt(dx, dy) if rng.random() < 0.5 else trafo.translate_pt(dx, dy)*t
        m = geo.mul(m, (1, 0, 0, 1, dx, dy))
    return t, m


class Run:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.engines, self.texts, self.writes, self.marks, self.sessions = [], [], [], [], []
        self.log, self.instances = [], []

    def engine(self, kind=None, ipc=None, **opts):
        rng = self.rng
        kind = kind or rng.choice(["tex", "tex", "latex"])
        if not opts:
            if kind == "tex":
                if rng.random() < 0.4: opts["lfs"] = rng.choice(["12pt", "11ptex", "10ptex", None])
            elif rng.random() < 0.4: opts["docopt"] = rng.choice(["12pt", "11pt"])
            if kind == "latex" and rng.random() < 0.2: opts["docclass"] = "report"
            if kind == "latex" and rng.random() < 0.2: opts["pyxgraphics"] = False
        e = Engine(kind, opts, rng.random() < 0.25 if ipc is None else ipc)
        self.engines.append(e); self.sessions.append(e.session)
        self.log.append(("engine", kind, opts, e.ipc))
        self.preamble(e, "\\newcount\\cnt \\cnt=%d \\def\\macA#1{<#1>}\\def\\macB{B%d}\\def\\glob{g}" % (rng.randint(0, 50), rng.randint(0, 9)))
        return e

    def keep(self, e):
        o = getattr(e.real, "instance", None)
        if o is not None and not any(o is x for x in self.instances): self.instances.append(o)

    def preamble(self, e, p):
        if e.session.done or e.typeset: return
        self.keep(e)
        e.real.preamble(p); e.preambles.append(p); e.session.preambles.append(p)
        self.mon.count("preamble"); self.log.append(("preamble", p))

    def newsession(self, e, preambles):
        e.preambles = list(preambles); e.session = Session(e, preambles); e.typeset = False; self.sessions.append(e.session)

    def text(self, e, t):
        if e.session.done:
            self.newsession(e, e.preambles); self.mon.count("restart")
        kw = {}
        if t.single: kw["singlecharmode"] = True
        self.log.append(("text", self.engines.index(e), t.expr, [type(a).__name__ for a in t.attrs], t.x, t.y))
        t.box = e.real.text_pt(t.x, t.y, t.expr, t.attrs, **kw) if self.rng.random() < 0.6 else e.real.text(t.x*unit.t_pt, t.y*unit.t_pt, t.expr, t.attrs, **kw)
        e.typeset = True
        t.session = e.session; e.session.texts.append(t); self.texts.append(t)
        t.read = e.ipc
        self.keep(e)
        self.mon.count("text"); self.mon.count("text-"+e.kind)
        if e.ipc: self.mon.count("text-ipc")
        for k in t.kinds: self.mon.count("attr-"+k)
        b = t.box
        t.seen = [unit.topt(x) for x in (b.left, b.right, b.width, b.height, b.depth)]
        bb = b.bbox(); t.seenbbox = (bb.left_pt(), bb.bottom_pt(), bb.right_pt(), bb.top_pt())
        t.seenlocal = t.local

    def fail(self, e, expr=None):
        if e.session.done: self.newsession(e, e.preambles)
        t = Text(); t.fails = True; t.expr = expr or self.rng.choice(FAIL)
        self.log.append(("fail", self.engines.index(e), t.expr))
        try: e.real.text(0, 0, t.expr)
        except (text.TexResultError, UnicodeEncodeError): self.mon.count("failed-text")
        else: self.mon.fail("failure-silent", "no error for %r" % t.expr)
        e.typeset = True

    def need(self, t):
        "the contents of t were used: its session has ended unless it was read before"
        s = t.session
        if not t.read:
            s.done = True
            for u in s.texts: u.read = True

    def marker(self, t):
        if not t.markernames: return
        n = self.rng.choice(t.markernames)
        p = t.box.marker(n); self.need(t)
        self.marks.append((t, n, unit.topt(p[0]), unit.topt(p[1]), t.local)); self.log.append(("marker", n))
        self.mon.count("marker")

    def transform(self, t):
        tr, m = raffine(self.rng)
        t.box.transform(tr); t.local = geo.mul(t.local, m)
        self.log.append(("transform", m)); self.mon.count("transform")
        if t.read: self.mon.count("transform-read")

    def write(self, ts):
        rng = self.rng
        c = canvas.canvas(); want = []
        for t in ts:
            if rng.random() < 0.3:
                tr, m = raffine(rng); c.insert(t.box, [tr]); want.append((t, geo.mul(t.local, m)))
            else: c.insert(t.box); want.append((t, t.local))
            self.need(t)
        fmt = rng.choice(["pdf", "pdf", "eps", "ps"])
        self.writes.append((fmt, pub.write(c, fmt) if fmt != "ps" else pub.write(document.document([document.page(c)]), fmt), want))
        self.log.append(("write", fmt, [self.texts.index(t) for t in ts])); self.mon.count("write-"+fmt)

    def verify(self):
        mon = self.mon
        for s in self.sessions:
            if s.texts: reference(mon, s)
        sx = SCALE[0]
        for t in self.texts:
            w, h, d = t.extent
            want = [t.h*w, w-t.h*w, w, h, d]
            for n, a, b in zip(("left", "right", "width", "height", "depth"), t.seen, want):
                mon.close(a, b*sx, (3e-4*(1+abs(t.h))+1e-5*abs(w)*(t.h != 0))*sx, "extent", lambda: "%s of %r %s" % (n, t.expr, [type(a).__name__ for a in t.attrs]))
            P = [geo.ap(t.seenlocal, (x*sx, y*sx)) for x in (-t.h*w, w-t.h*w) for y in (-d, h)]
            B = (min(p[0] for p in P), min(p[1] for p in P), max(p[0] for p in P), max(p[1] for p in P))
            for a, b in zip(t.seenbbox, B): mon.close(a, b, 2e-3*sx*(2+abs(t.h))+1e-4*sx*abs(w), "bbox", lambda: "bbox %s of %r, expected %s" % (t.seenbbox, t.expr, B))
        for t, n, x, y, m in self.marks:
            q = t.markers[n]
            q = geo.ap(m, ((q[0]-t.h*t.extent[0])*sx, q[1]*sx))
            mon.ptclose((x, y), q, (0.01+2e-5*abs(t.extent[0]))*norm(m)*sx+1e-3, "marker", lambda: "marker %s of %r" % (n, t.expr))
        for fmt, data, want in self.writes:
            pages = pub.read(data, fmt)
            mon.check(len(pages) == 1, "pages", "%d pages" % len(pages))
            self.compare(fmt, pages[0].events, want)

    def compare(self, fmt, evs, want):
        mon, sx = self.mon, SCALE[0]
        evs = list(evs)
        for t, m in want:
            m = geo.mul((sx, 0, 0, sx, 0, 0), m)
            L = lambda x, y: geo.ap(m, (x-t.h*t.extent[0], y))
            N = norm(m)
            k = r = 0
            while k < len(t.chars) or r < len(t.rules):
                mon.check(evs, "missing", lambda: "%s: output ends after %d of %d characters, %d of %d rules of %r" % (fmt, k, len(t.chars), r, len(t.rules), t.expr))
                ev = evs.pop(0)
                if t.color is not None: mon.check(same(ev.color, t.color), "color", lambda: "%s: %s painted with %r, expected %r" % (fmt, t.expr, ev.color, t.color))
                else: mon.check(same(ev.color, (0, 0, 0)), "color", lambda: "%s: %r painted with %r" % (fmt, t.expr, ev.color))
                if ev.op == "text":
                    mon.check(k+len(ev.codes) <= len(t.chars), "glyphs", lambda: "%s: characters %s after %d of %d characters of %r" % (fmt, ev.codes, k, len(t.chars), t.expr))
                    if t.single: mon.check(len(ev.codes) == 1, "singlechar", lambda: "%s in singlecharmode" % ev.codes)
                    at = ev.at if "at" in ev.__dict__ else ev.tm[4:6]
                    A = ev.tm if "tm" in ev.__dict__ else ev.ctm
                    q = t.chars[k]
                    p = L(q[3], q[4])
                    mon.ptclose(at, p, (0.01+2e-5*abs(t.extent[0]))*N+0.003, "position", lambda: "%s: character %d of %r" % (fmt, k, t.expr))
                    mon.track("offset", max(abs(at[0]-p[0]), abs(at[1]-p[1]))/N)
                    for j in range(4): mon.close(A[j]*ev.size, m[j]*q[1]*SX, 2e-3*q[1]*N+1e-4, "glyph-matrix", lambda: "%s: %s of %r: %s x %g, expected %s x %g" % (fmt, ev.font, t.expr, A, ev.size, m, q[1]))
                    for c in ev.codes:
                        q = t.chars[k]
                        mon.check(q[2] == c and ev.font.split("+")[-1].upper() == q[0].upper(), "glyphs", lambda: "%s: glyph %d of %r is %s/%d, expected %s/%d" % (fmt, k, t.expr, ev.font, c, q[0], q[2]))
                        k += 1; mon.count("glyph")
                elif ev.op == "fill":
                    mon.check(r < len(t.rules), "rules", lambda: "%s: %r paints %r" % (fmt, t.expr, ev))
                    x, y, w, h = t.rules[r]
                    P = [L(x, y), L(x+w, y), L(x+w, y+h), L(x, y+h)]
                    got = [q for s in ev.subs for q in [s.start]+[g.end() for g in s.segs]]
                    mon.check(len(ev.subs) == 1 and all(min(math.dist(g, p) for p in P) < (0.02+2e-5*abs(t.extent[0]))*N+0.003 for g in got) and all(min(math.dist(g, p) for g in got) < (0.02+2e-5*abs(t.extent[0]))*N+0.003 for p in P), "rule",
                              lambda: "%s: rule %d of %r drawn as %s, expected %s" % (fmt, r, t.expr, got, P))
                    r += 1; mon.count("rule")
                else: mon.fail("painted", "%s: %r paints %r" % (fmt, t.expr, ev))
            mon.count("compared")
            if not t.chars and not t.rules: mon.count("empty")
        mon.check(not evs, "extra", lambda: "%s: additional output %r" % (fmt, evs[:3]))


def same(c, rgb):
    if c is None: return False
    k, v = c[0], tuple(c[1])
    if k in ("gray", "grey"): v = v*3
    return len(v) == 3 and all(abs(a-b) < 0.011 for a, b in zip(v, rgb))


def norm(m): return max(1e-3, math.hypot(m[0], m[1]), math.hypot(m[2], m[3]))


def history(rng, mon, R):
    for _ in range(rng.choice([1, 1, 1, 2, 3])): R.engine()
    for e in R.engines:
        for _ in range(rng.choice([0, 0, 1, 2])):
            R.preamble(e, rng.choice(["\\def\\macB{C%d}" % rng.randint(0, 9), "\\def\\macA#1{[#1#1]}", "\\parindent=%dpt" % rng.randint(0, 20), "\\advance\\cnt by 7", "\\let\\oldB=\\macB\\def\\macB{\\oldB'}"]))
    for _ in range(rng.choice([3, 6, 10, 16])):
        e = rng.choice(R.engines)
        r = rng.random()
        if r < 0.62 or not R.texts: R.text(e, rtext(rng, e))
        elif r < 0.68: R.fail(e)
        elif r < 0.78: R.write(rng.sample(R.texts, rng.randint(1, min(3, len(R.texts)))))
        elif r < 0.83: R.marker(rng.choice(R.texts))
        elif r < 0.89: R.transform(rng.choice(R.texts))
        elif r < 0.95:
            re_ = rng.random() < 0.5
            e.real.reset(reinit=True) if re_ else e.real.reset()
            R.newsession(e, e.preambles if re_ else [])
            R.log.append(("reset", re_)); mon.count("reset-"+str(re_))
            if not re_: R.preamble(e, "\\newcount\\cnt \\cnt=%d \\def\\macA#1{(#1)}\\def\\macB{R%d}\\def\\glob{r}" % (rng.randint(0, 50), rng.randint(0, 9)))
            elif rng.random() < 0.5: R.preamble(e, "\\def\\macB{P%d}" % rng.randint(0, 9))
        else:
            t = rng.choice(R.texts)
            R.write([t, t])
    for t in R.texts:
        if rng.random() < 0.4: R.marker(t)
    if R.texts: R.write(rng.sample(R.texts, len(R.texts)))


def run_case(kind, i, rng, mon):
    SCALE[0] = 1
    R = Run(rng, mon)
    try:
        if kind == "gen":
            if rng.random() < 0.25:
                SCALE[0] = rng.choice([1.5, 0.7, 2]); unit.set(xscale=SCALE[0]); mon.count("xscale")
            history(rng, mon, R)
        else: globals()["d_"+kind](rng, mon, R)
        mon.describe(R.log)
        R.verify()
        mon.nontrivial(repr(R.log))
        mon.count("sessions", len(R.sessions))
    except harness.Violation:
        mon.describe(R.log); raise
    finally:
        SCALE[0] = 1; unit.set(xscale=1)
        for o in R.instances: housekeeping(o)


def housekeeping(o):
    "end the TeX process of a session no output was written from (there is no public call for it; nothing is decided here)"
    try:
        import atexit
        c = o._cleanup; atexit.unregister(c)
        if os.path.isdir(getattr(o, "tmpdir", "")): c()
    except Exception: pass


def plain(rng, e, s):
    t = rtext(rng, e, False); t.expr = t.ref = s; t.attrs = []; t.h = 0; t.T = geo.IDENT; t.local = (1, 0, 0, 1, t.x, t.y); t.color = None; t.kinds = []
    return t


def d_failedfirst(rng, mon, R):
    for kind in ("tex", "latex"):
        e = R.engine(kind, False); R.fail(e, "\\undefinedmacro")
        for s in ("abc", "def"): R.text(e, plain(rng, e, s))
        R.write(R.texts)


def d_failedmiddle(rng, mon, R):
    for kind in ("tex", "latex"):
        e = R.engine(kind, False)
        for s in ("abc", None, "def", None, None, "ghi"): R.text(e, plain(rng, e, s)) if s else R.fail(e)
        R.write(R.texts[::-1])


def d_failedlast(rng, mon, R):
    for kind in ("tex", "latex"):
        e = R.engine(kind, False)
        for s in ("abc", "def", None, None): R.text(e, plain(rng, e, s)) if s else R.fail(e)
        R.write(R.texts)


def d_failedonly(rng, mon, R):
    e = R.engine("tex", False); R.fail(e, "\\undefinedmacro"); R.fail(e, "\xe4")
    e.real.reset(); R.newsession(e, []); R.preamble(e, "\\def\\macB{x}")
    R.text(e, plain(rng, e, "abc\\macB")); R.write(R.texts)


def d_failedipc(rng, mon, R):
    e = R.engine("tex", True)
    for s in (None, "abc", None, "def", "x\\PyXMarker{q}y"): R.text(e, plain(rng, e, s)) if s else R.fail(e)
    R.texts[-1].markernames = ["q"]; R.marker(R.texts[-1])
    R.write(R.texts)
    for s in ("more", None, "texts"): R.text(e, plain(rng, e, s)) if s else R.fail(e)
    R.write(R.texts)


def d_mixed(rng, mon, R):
    E = [R.engine("tex", False), R.engine("tex", False), R.engine("latex", False), R.engine("tex", True)]
    for k in range(12):
        e = rng.choice(E); R.text(e, rtext(rng, e))
    R.write(rng.sample(R.texts, 4))
    for k in range(8):
        e = rng.choice(E); R.text(e, rtext(rng, e))
    R.write(rng.sample(R.texts, len(R.texts)))


def d_many(rng, mon, R):
    e = R.engine("tex", False)
    for k in range(300): R.text(e, plain(rng, e, "t%d" % k + (" $x_{%d}$" % k if k % 7 == 0 else "")))
    R.write(rng.sample(R.texts, 50)); R.write(R.texts)


def d_twiceorder(rng, mon, R):
    e = R.engine("tex", False)
    for k in range(6): R.text(e, rtext(rng, e))
    t = R.texts[3]
    R.write([t]); R.transform(t); R.write([t, R.texts[0], t]); R.transform(t); R.transform(R.texts[0]); R.write(R.texts[::-1])


def d_resetopen(rng, mon, R):
    e = R.engine("tex", False)
    for k in range(3): R.text(e, plain(rng, e, "first%d\\macB" % k))
    e.real.reset(); R.newsession(e, []); R.preamble(e, "\\def\\macB{second}")
    for k in range(3): R.text(e, plain(rng, e, "\\macB%d" % k))
    e.real.reset(reinit=True); R.newsession(e, e.preambles); R.preamble(e, "\\def\\macB{third}")
    R.text(e, plain(rng, e, "\\macB"))
    R.write([R.texts[k] for k in (6, 0, 4, 1)]); R.text(e, plain(rng, e, "again \\macB")); R.write(R.texts)


def d_encodings(rng, mon, R):
    e = R.engine("latex", False, texenc="latin1", docopt="12pt"); R.preamble(e, "\\usepackage[latin1]{inputenc}")
    for s in ("\xe4\xf6\xfc", "na\xefve \xdf", "abc"): R.text(e, plain(rng, e, s))
    R.fail(e, "\u20ac"); R.text(e, plain(rng, e, "\xe9t\xe9")); R.write(R.texts)
