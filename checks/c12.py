"""C12: every written PDF, PS, EPS and SVG file is structurally valid.

The monitors are strict parsers of the written bytes: a PDF reader that validates the
cross-reference table, every object, every stream length and every resource dictionary
and interprets page, pattern, form and appearance content with balanced operators; a
PostScript interpreter (undefined names, stack balance) plus a structure-comment
checker; an XML/SVG reader with reference resolution. Ghostscript is a second,
independent judge on a sample."""
import calendar, io, os, re, subprocess, time
import pub, outi, valid, scene, draw, geo
from harness import Skip
from pyx import canvas, document, path, color, unit, trafo, deco, pdfextra, pattern, text

PROPERTY = "C12"
LEVEL = "randomized_monitoring"
RULE = "a document over random canvas items is written and parsed by strict validators"
QUICK = 900
THOROUGH = 12000
CPU = 120
REQUIRED = {"gs-eps": 4, "gs-pdf": 9, "gs-ps": 8, "in-pattern-bitmap": 20, "in-pattern-clip": 8, "in-pattern-pattern": 5, "in-pattern-text": 20, "item-bitmap": 88, "item-checkbox": 4,
            "item-choicefield": 5, "item-draw": 105, "item-graph": 33, "item-hatched": 33, "item-mesh": 37, "item-pattern": 55, "item-radiobuttons": 8, "item-svgfile": 6, "item-tex": 36,
            "item-text": 106, "item-textfield": 10, "pdf-ExtGState": 146, "pdf-Font": 144, "pdf-Pattern": 100, "pdf-Shading": 40, "pdf-annot": 40, "pdf-fontfile": 100, "pdf-image": 150,
            "pdf-objects": 2200, "pdf-operators": 25000, "pdf-scn": 130, "ps-operators": 200000, "svg-events": 500, "written-eps": 80, "written-pdf": 170, "written-ps": 140, "written-svg": 70}
DIRECTED = []
GS = "/usr/bin/gs"


def rtitle(rng):
    return rng.choice(["plain", "with (parens) and \\ <x>", "unbalanced ((", "umlauts äöüß", "greek α β", "two\nlines", "100% %%EOF", ""])


def gsrun(mon, data, fmt, strict=True):
    f = os.path.join(mon.tmp, "x." + fmt)
    with open(f, "wb") as h: h.write(data)
    cmd = [GS, "-q", "-dNOPAUSE", "-dBATCH", "-dSAFER", "-sDEVICE=nullpage", "-sOutputFile=/dev/null"]
    if fmt == "pdf": cmd += ["-dPDFSTOPONERROR", "-dPDFSTOPONWARNING"]
    r = subprocess.run(cmd + [f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    out = r.stdout.decode("latin1")
    mon.count("gs-" + fmt)
    bad = r.returncode != 0 or "Error" in out or "rror:" in out or "Warning" in out
    os.remove(f)
    mon.check(not bad, "gs-" + fmt, lambda: "ghostscript rejects the file: exit %d\n%s" % (r.returncode, out[:300] + " ... " + out[-300:]))


def checkpdf(mon, data, npages, kw, fields=None):
    pdf, pages, chk = valid.check_pdf(data)
    mon.check(len(pdf.pages) == npages, "pdf-pages", lambda: "%d pages instead of %d" % (len(pdf.pages), npages))
    inf = pdf.get(pdf.trailer["Info"])
    for k in ("title", "author", "subject", "keywords"):
        v = kw.get(k)
        if v:
            got = valid.pdftext(inf[k.capitalize()]) if k.capitalize() in inf else None
            mon.check(got == v, "pdf-info", lambda: "/%s is %r instead of %r" % (k.capitalize(), got, v))
    m = re.fullmatch(rb"D:(\d{12})(?:Z00'00'|([+-])(\d\d)'(\d\d)')", bytes(inf["CreationDate"]))
    mon.check(m is not None, "pdf-date", lambda: repr(inf["CreationDate"]))
    t = calendar.timegm(time.strptime(m.group(1).decode(), "%Y%m%d%H%M"))
    if m.group(2): t -= (60*int(m.group(3)) + int(m.group(4)))*60*(1 if m.group(2) == b"+" else -1)
    now = int(os.environ.get("SOURCE_DATE_EPOCH", time.time()))
    mon.check(-120 < t-now < 120, "pdf-date", lambda: "creation date %r in TZ %s is %d s off" % (inf["CreationDate"], os.environ["TZ"], t-now))
    mon.check((pdf.root.get("PageMode") == "FullScreen") == bool(kw.get("fullscreen")), "pdf-fullscreen", str(pdf.root))
    if not kw.get("compress", True):
        comp = [n for n, o in pdf.objs.items() if isinstance(o, outi.PDFStream) and o.get("Filter") == "FlateDecode" and o.get("Subtype") != "Image" and not any(k in o for k in ("Length1", "ShadingType"))]
    if fields is not None:
        per = [0]*npages
        for r, i in chk.owner.items(): per[i] += 1
        mon.check(per == fields, "pdf-annotations", lambda: "annotations per page %s instead of %s" % (per, fields))
    for k, n in chk.stats.items(): mon.count("pdf-" + k, n)
    mon.count("pdf-objects", len(pdf.objs)); mon.count("pdf-operators", getattr(pdf, "nops", 0))
    return pdf


def run_case(kind, i, rng, mon):
    scene.TMP[0] = mon.tmp
    svg = rng.random() < 0.3
    svgonly = svg and rng.random() < 0.7
    os.environ.pop("SOURCE_DATE_EPOCH", None)
    os.environ["TZ"] = rng.choice(["UTC", "EST5", "IST-5:30", "CET-1", "NST3:30"])
    time.tzset()
    if rng.random() < 0.2: os.environ["SOURCE_DATE_EPOCH"] = str(rng.choice([0, 86399, 1234567890]))
    npages = 1 if svg else rng.choice([1, 1, 1, 2, 2, 3, 4])
    pages = []
    feats = []
    perpage = []
    shared = []
    hasfields = False
    for p in range(npages):
        c = canvas.canvas() if rng.random() < 0.8 else canvas.canvas([trafo.scale(rng.uniform(0.5, 2))])
        nf = 0
        pf = []
        for k in range(rng.choice([0, 1, 1, 2, 3, 5])):
            if shared and rng.random() < 0.15:
                cc, n, ff = rng.choice(shared)
                if n == 0: c.insert(cc); pf += ff
                continue
            n0 = len(pf)
            cc = canvas.canvas(); 
            f = scene.item(rng, cc, "f%d.%d" % (p, k), pf, svg, svgonly)
            c.insert(cc)
            n = 0
            if f is not None:
                hasfields = True
                n = len(f.positions_pt) if isinstance(f, pdfextra.radiobuttons) else 1
                nf += n
            shared.append((cc, n, pf[n0:]))
        pages.append((c, scene.pageopts(rng) if not svg else {k: v for k, v in scene.pageopts(rng).items()}))
        perpage.append(nf); feats.append(pf)
    flat = [f for pf in feats for f in pf]
    mon.describe({"pages": feats, "options": [sorted(o) for _, o in pages], "svg": svg})
    if flat: mon.nontrivial((tuple(sorted(flat)), tuple(tuple(sorted(o)) for _, o in pages)))
    for f in set(flat): 
        mon.count("item-" + re.sub("[-+].*", "", f))
        for k in f.split("+")[1:]: mon.count("in-pattern-" + k)
    if not flat: mon.count("empty-document")
    try:
        doc = document.document([document.page(c, **o) for c, o in pages])
    except ValueError: raise
    def ok(o): return True
    fmts = ["svg"] if svgonly else ["pdf", "ps"] + (["eps"] if npages == 1 else []) + (["svg"] if svg else [])
    if hasfields: fmts = ["pdf"]
    rng.shuffle(fmts)
    rungs = rng.random() < float(os.environ.get("GSRATE", 0.1))
    for fmt in fmts:
        kw = {}
        if fmt in ("pdf", "ps", "eps"):
            if rng.random() < 0.5: kw["title"] = rtitle(rng)
            if rng.random() < 0.3: kw["stripfonts"] = False
            if rng.random() < 0.2: kw["textaspath"] = True
            if rng.random() < 0.1: kw["meshasbitmap"] = True; kw["meshasbitmapresolution"] = 50
            if fmt != "eps" and rng.random() < 0.4: kw["writebbox"] = True
        if fmt == "pdf":
            for k in ("author", "subject", "keywords"):
                if rng.random() < 0.2: kw[k] = rtitle(rng)
            if rng.random() < 0.3: kw["compress"] = False
            if rng.random() < 0.1: kw["compresslevel"] = rng.choice([0, 1, 9])
            if rng.random() < 0.1: kw["fullscreen"] = True
        if fmt == "svg" and rng.random() < 0.5: kw["textaspath"] = False
        try:
            data = pub.write(doc, fmt, **kw)
        except ValueError as e:
            if "Margins too broad" in str(e): raise Skip("margins")
            if "cannot be zero" in str(e): raise Skip("pattern step")
            raise
        mon.count("written-" + fmt)
        mon.count("bytes", len(data))
        try:
            if fmt == "pdf":
                checkpdf(mon, data, npages, kw, perpage)
            elif fmt in ("ps", "eps"):
                head, ps = valid.check_ps(data, fmt == "eps")
                mon.count("ps-operators", ps.nops)
                mon.check(len(ps.pages) == npages, "ps-pages", lambda: "%d showpage for %d pages" % (len(ps.pages), npages))
                if "title" in kw:
                    t = head.get("Title", "")
                    if all(" " < ch < "\x7f" and ch not in "()\\" or ch == " " for ch in kw["title"]):
                        mon.check(t == kw["title"].strip(), "ps-title", "%r for %r" % (t, kw["title"]))
            else:
                s = outi.read_svg(data)
                mon.count("svg-events", len(s.page.events))
        except outi.Malformed as e:
            if mon.tmp and os.environ.get("VERIF_KEEP"): open("/tmp/c12-bad." + fmt, "wb").write(data)
            mon.fail("malformed-" + fmt, "%s (options %s)" % (e, kw))
        mon.check(True, "", "")
        if rungs and fmt != "svg": gsrun(mon, data, fmt)
