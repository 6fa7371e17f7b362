"""C14: writing is repeatable and has no side effects.

A random document is built twice in the process: once plainly and written once per format,
once with a history: bounding boxes asked for, files written in any format with any
options, its objects reused in other drawings, its text engines used, other items drawn,
between all building steps and afterwards. The bytes have to be the same. A twin process
with its own hash seed and another history builds and writes the document, too."""
import hashlib, json, os, random, re, subprocess, sys

if __name__ == "__main__":
    for q in json.loads(os.environ["TWIN_PATH"]): sys.path.insert(0, q)
    sys.pycache_prefix = os.environ.get("PYTHONPYCACHEPREFIX")
    import logging; logging.getLogger("pyx").setLevel(logging.CRITICAL)

import pub, scene, draw, gen
from harness import Skip
from pyx import canvas, document, path, trafo, color, style, deco, unit, pdfextra, text, bbox, graph

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("random documents over all kinds of canvas items incl. decorations, deformers, connectors, graphs with keys, TeX and direct text, shared objects; written after "
        "random histories of bbox queries, writes (all formats and options), reuse of their objects in other drawings; compared bytewise, after renaming generated "
        "identifiers, with a fresh build and with the output of another process; distinct by items and history")
QUICK, THOROUGH = 170, 3400
CPU = 240
REQUIRED = {"compared-pdf": 150, "compared-ps": 140, "compared-eps": 120, "compared-svg": 60, "twin": 20, "write": 50, "bbox": 25, "shared": 12, "tex": 12, "text": 12, "draw": 10, "insert": 12,
            "item-richgraph": 18, "item-draw": 12, "item-text": 10, "item-shared": 8, "item-deformer": 5, "item-connector": 3, "item-decotext": 4, "item-pattern": 3, "item-mesh": 3, "item-bitmap": 5}
DIRECTED = ["bboxthendraw", "styles"]
ASSUMPTIONS = ["SOURCE_DATE_EPOCH is set, so time stamps are equal; identifiers made from object addresses are renamed by order of appearance"]
_base = [None]


def setup(base):
    _base[0] = base
    os.environ["SOURCE_DATE_EPOCH"] = "1234567890"


def norm(data):
    "rename generated identifiers (object addresses) in order of appearance"
    names = {}
    def sub(m):
        return names.setdefault(m.group(0), b"ID%d" % len(names)).ljust(len(m.group(0)), b"#")
    # resource dictionaries are sorted by those identifiers
    if data[:4] == b"%PDF":
        data = re.sub(rb"(?<=<<\n)(?:/[A-Za-z-]+\d{12,16} \d+ 0 R\n)+(?=>>)", lambda m: b"".join(sorted(m.group(0).splitlines(True), key=lambda l: int(l.split()[1]))), data)
    return re.sub(rb"(?<=[a-z-])\d{12,16}(?!\d)", sub, data)


def build(rng, svg, probe):
    "-> list of canvases, keeping everything alive"
    cs, feats, fields, keep = [], [], False, []
    n = 1 if svg else rng.choice([1, 1, 2])
    tmpf = []
    for p in range(n):
        c = canvas.canvas([trafo.scale(rng.uniform(0.5, 2))] if rng.random() < 0.2 else [])
        for k in range(rng.choice([1, 2, 3, 4])):
            cc = canvas.canvas()
            if rng.random() < 0.55:
                g = scene.rich(rng, cc, feats, svg)
                keep.append(g)
            else:
                f = scene.item(rng, cc, "f%d.%d" % (p, k), feats, svg)
                if f is not None: fields = True
            where = c if rng.random() < 0.8 else c.layer("l%d" % rng.randint(0, 2))
            at = draw.rattrs(rng) if rng.random() < 0.25 else []
            where.insert(cc, [draw.mk(a) for a in at])
            if rng.random() < 0.1 and not fields: where.insert(cc, [trafo.translate(1, 1)])
            probe(c, cc)
        cs.append(c)
    return cs, feats, fields


WOPTS = {"pdf": [("write_compress", False), ("write_title", "x"), ("write_textaspath", True), ("write_stripfonts", False), ("page_rotated", 1), ("page_paperformat", document.paperformat.A4), ("page_fittosize", 1)],
         "ps": [("write_title", "x"), ("write_textaspath", True), ("write_stripfonts", False), ("page_paperformat", document.paperformat.A4), ("page_fittosize", 1), ("page_rotated", 1)],
         "svg": [("write_textaspath", False), ("page_bboxenlarge", 3)]}
WOPTS["eps"] = WOPTS["ps"]


def write1(c, fmt, **kw):
    try: return pub.write(c, fmt, **kw)
    except ValueError as e:
        if "cannot be zero" in str(e): raise Skip("pattern step")
        raise
    except graph.axis.axis.NoValidPartitionError: raise Skip("partition")


def history(rng, cs, svg, fields, mon, steps=None):
    "operations that must not matter"
    fmts = ["pdf"] + ([] if fields else ["ps", "eps"] + (["svg"] if svg else []))
    log = []
    for _ in range(rng.randint(1, 4) if steps is None else steps):
        c = rng.choice(cs)
        r = rng.random()
        if r < 0.35:
            f = rng.choice(fmts)
            kw = dict(rng.sample(WOPTS[f], rng.randint(0, 2)))
            if "write_paperformat" in kw: pass
            write1(c, f, **kw); log.append("write-" + f)
        elif r < 0.5:
            c.bbox(); [getattr(i, "bbox")() for i in c.items]; log.append("bbox")
        elif r < 0.6:
            o = canvas.canvas([color.rgb.red]) if rng.random() < 0.5 else canvas.canvas()
            o.insert(c, [trafo.rotate(33), canvas.clip(path.circle(0, 0, 3))] if not fields else []); o.fill(path.rect(0, 0, 1, 1))
            if not fields or rng.random() < 0.5: write1(o, rng.choice(fmts))
            log.append("insert")
        elif r < 0.7:
            sh = scene.sharedobj(rng)
            o = canvas.canvas()
            for p in sh["path"]: p.bbox(); p.arclen(); p.normpath(); p.reversed(); o.stroke(p, sh["attrs"][0] + [style.linewidth.THIN]); o.draw(p, [deco.filled([rng.choice(sh["pattern"])]), deco.earrow])
            for a in sh["attrs"]: o.stroke(sh["path"][1], a); o.stroke(sh["path"][1], a + [color.rgb.green])
            write1(o, rng.choice(["pdf", "ps"])); log.append("shared")
        elif r < 0.8:
            t = scene.engine(rng.choice(scene.availfonts())).text(0, 0, "other"); t.bbox()
            o = canvas.canvas(); o.insert(t); write1(o, rng.choice(["pdf", "eps"])); log.append("text")
        elif r < 0.87:
            t = scene.texengine().text(0, 0, rng.choice([r"\bf other", r"$\sum$"])); t.bbox(); t.marker
            if rng.random() < 0.5: o = canvas.canvas(); o.insert(t); write1(o, rng.choice(["pdf", "ps"]))
            log.append("tex")
        elif r < 0.94:
            f = []
            o = canvas.canvas(); scene.rich(rng, o, f); write1(o, rng.choice(["pdf", "ps"])); log.append("draw-" + f[0])
        else:
            style.linewidth.Thick(2*unit.w_pt) if False else deco.earrow.large(size=3); color.gradient.Rainbow.getcolor(0.7); scene.sharedobj(rng)["pattern"][1](strokestyles=[style.linewidth.THICK])
            log.append("derive")
    for l in log: mon.count(l.split("-")[0])
    return log


class NoMon:
    def count(self, *a): pass


def outputs(cs, svg, fields, order):
    out = {}
    for f in order:
        if f == "svg" and not svg or fields and f != "pdf": continue
        if f in ("pdf", "ps"):
            d = document.document([document.page(c) for c in cs])
            out[f] = norm(write1(d, f, **({"compress": False} if f == "pdf" else {})))
        elif len(cs) == 1: out[f] = norm(write1(cs[0], f))
    return out


def casefor(key, svg):
    rng = random.Random(key)
    return build(rng, svg, lambda *a: None)


class Twin:
    "a fresh process writing the same documents"
    def __init__(self, n):
        env = dict(os.environ, PYTHONHASHSEED=str(n), TWIN_PATH=json.dumps(sys.path))
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True, bufsize=1)
    def ask(self, key, svg, d):
        self.p.stdin.write(json.dumps([key, svg, d]) + "\n")
        r = self.p.stdout.readline()
        if not r: raise RuntimeError("twin process died")
        return json.loads(r)


def twinmain():
    for l in sys.stdin:
        key, svg, d = json.loads(l)
        scene.TMP[0] = d
        try:
            cs, feats, fields = casefor(key, svg)
            out = outputs(cs, svg, fields, ["svg", "eps", "pdf", "ps"])
            for f, v in out.items(): open(os.path.join(d, "twin." + f), "wb").write(v)
            print(json.dumps(sorted(out)), flush=True)
        except Skip: print(json.dumps("skip"), flush=True)
        except Exception as e:
            import traceback
            print(json.dumps("error " + traceback.format_exc()[-1500:]), flush=True)


_twin = [None, 0]


def differ(a, b):
    "first differing lines"
    la, lb = a.split(b"\n"), b.split(b"\n")
    for n, (x, y) in enumerate(zip(la, lb)):
        if x != y: return "line %d: %r instead of %r (after %r)" % (n, y[:200], x[:200], la[max(0, n-3):n])
    return "lengths %d, %d lines" % (len(lb), len(la))


def same(mon, want, got, what):
    for f in got:
        if f in want:
            mon.check(want[f] == got[f], what + "-" + f, lambda: differ(want[f], got[f]))
            mon.count("compared-" + f)


def run_case(kind, i, rng, mon):
    scene.TMP[0] = mon.tmp
    if kind != "gen": return globals()["d_" + kind](rng, mon)
    svg = rng.random() < 0.4
    key = "%s" % rng.random()
    order = ["pdf", "ps", "eps", "svg"]
    rng.shuffle(order)
    h = random.Random("h" + key)
    # build with a history
    logs = []
    def probe(c, cc):
        if h.random() < 0.4: logs.extend(history(h, [c, cc], svg, True if any(isinstance(x, pdfextra.formfield) for x in cc.items) else probe.fields, mon, 1))
    probe.fields = True
    r0 = random.Random(key)
    # whether there are form fields has to be known for the probes
    cs0, feats, fields = casefor(key, svg)
    probe.fields = fields
    mon.describe([feats, svg])
    want = outputs(cs0, svg, fields, ["pdf", "ps", "eps", "svg"])
    mon.describe([feats, svg, "again"])
    same(mon, want, outputs(cs0, svg, fields, order), "rewrite")
    cs, feats, fields = build(random.Random(key), svg, probe)
    logs += ["|"] + history(h, cs, svg, fields, mon)
    mon.describe([feats, svg, logs])
    same(mon, want, outputs(cs, svg, fields, order), "history")
    same(mon, want, outputs(cs0, svg, fields, order), "later")
    for f in feats: mon.count("item-" + re.sub("[-+].*", "", f))
    if rng.random() < 0.5:
        if _twin[0] is None: _twin[0] = Twin(1 + rng.randrange(1000000))
        r = _twin[0].ask(key, svg, mon.tmp)
        if r == "skip": raise Skip("twin")
        mon.check(not isinstance(r, str), "twin-error", lambda: r)
        same(mon, want, {f: open(os.path.join(mon.tmp, "twin." + f), "rb").read() for f in r}, "process")
        mon.count("twin")
    if feats: mon.nontrivial([feats, logs])


def d_bboxthendraw(rng, mon):
    "asking for boxes or writing while drawing"
    for fmt in ("pdf", "eps", "svg", "ps"):
        ref = None
        for ask in (None, "bbox", "pdf", "ps", "svg"):
            c = canvas.canvas([trafo.scale(2)]); s = canvas.canvas([color.rgb.red])
            def q():
                if ask == "bbox": c.bbox(); s.bbox()
                elif ask: pub.write(c, ask); pub.write(s, ask)
            c.insert(s); q()
            s.fill(path.rect(0, 0, 1, 2)); q()
            c.stroke(path.line(0, 0, 5, 5), [deco.earrow]); q()
            s.stroke(path.line(0, 0, -1, 2)); q()
            c.layer("a").fill(path.circle(3, 3, 1)); q()
            d = norm(pub.write(c, fmt, **({"write_compress": False} if fmt == "pdf" else {})))
            if ref is None: ref = d
            mon.check(d == ref, "bboxthendraw-" + fmt, lambda: "%s: %s" % (ask, differ(ref, d)))


def d_styles(rng, mon):
    "attribute lists, paths and trafos given to drawing calls are not altered"
    at = [style.linewidth.Thick, color.rgb.red, deco.earrow.normal, deco.barrow, style.linewidth.THIN, deco.filled([color.rgb.blue])]
    p = path.path(path.moveto(0, 0), path.rlineto(1, 2), path.arc(3, 3, 1, 0, 200), path.closepath(), path.moveto(4, 4), path.curveto(1, 2, 3, 4, 5, 6))
    t = trafo.rotate(20).scaled(2)
    b = bbox.bbox(0, 0, 1, 1)
    before = (list(at), str(p), [tuple(map(str, x.__dict__.items())) for x in p.pathitems], str(t), str(b))
    c = canvas.canvas([t]); at2 = [t, canvas.clip(p)]
    for k in range(3):
        c.draw(p, at); c.stroke(p, at[:2]); c.insert(canvas.canvas(), at2)
        pub.write(c, "pdf", page_bbox=b, page_paperformat=document.paperformat.A4, page_rotated=1); pub.write(c, "svg"); p.arclen(); p.normpath(); p.transformed(t); p.reversed()
        after = (list(at), str(p), [tuple(map(str, x.__dict__.items())) for x in p.pathitems], str(t), str(b))
        mon.check(before == after and at2[0] is t and len(at2) == 2, "arguments-altered", lambda: "%s -> %s" % (before, after))


if __name__ == "__main__": twinmain()
