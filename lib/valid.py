"""Structural validators for written files, on top of the interpreters in outi."""
import re, math, io, zlib
import outi
from outi import Malformed

# ---------------------------------------------------------------- PDF
NCOMP = {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}


class PDFCheck:
    """validates every object of a parsed PDF; stats counts what was seen"""

    def __init__(self, pdf, pages):
        self.pdf = pdf
        self.stats = {}
        self.seen = set()
        if pdf.unreachable: self.err("unreachable objects %s" % sorted(pdf.unreachable))
        if getattr(pdf, "ops_in_path", 0): self.err("%d other operators between path construction and painting" % pdf.ops_in_path)
        self.info()
        widgets = []
        owner = {}
        for i, p in enumerate(pdf.pages):
            self.resources(p.get("Resources"), "page %d" % (i+1))
            self.spaces(pdf.stream(self.get(p["Contents"])), "page %d" % (i+1))
            if p.get("Rotate", 0) % 90: self.err("/Rotate %r" % p["Rotate"])
            for k in ("MediaBox", "CropBox"):
                if k in p: self.rect(p[k], k)
            for r in self.get(p.get("Annots", [])):
                if not isinstance(r, outi.Ref): self.err("direct annotation")
                if r in owner: self.err("annotation %r on pages %d and %d" % (r, owner[r]+1, i+1))
                owner[r] = i
                a = self.get(r)
                if a.get("Type", "Annot") != "Annot": self.err("annotation of /Type %s" % a.get("Type"))
                self.rect(a["Rect"], "Rect of annotation", False)
                if a["Subtype"] == "Widget":
                    widgets.append(r)
                    for st in a.get("AP", {}).values():
                        for f in ([st] if isinstance(st, outi.Ref) else st.values()): self.form(self.get(f), "appearance")
                    if "AS" in a and a["AS"] not in a["AP"]["N"] and a["AS"] != "Off": self.err("/AS %s not in /AP" % a["AS"])
                elif a["Subtype"] != "Link": self.err("annotation subtype %s" % a["Subtype"])
                self.count("annot")
        self.owner = owner
        form = self.get(pdf.root.get("AcroForm"))
        leaves = []
        names = set()
        def walk(r, parent, ft):
            f = self.get(r)
            ft = f.get("FT", ft)
            if ft not in ("Tx", "Btn", "Ch", "Sig"): self.err("field without /FT")
            if parent is not None and f.get("Parent") != parent: self.err("field kid with /Parent %r instead of %r" % (f.get("Parent"), parent))
            for k in ("T", "V", "DV", "TU", "TM"):
                if k in f and k != "V" and not isinstance(f[k], bytes): self.err("field /%s %r is no string" % (k, f[k]))
            if "DA" in f or ft in ("Tx", "Ch"): self.da(f)
            for o in f.get("Opt", []):
                if not isinstance(o, bytes): self.err("field /Opt %r" % (f["Opt"],))
            if "Kids" in f:
                for k in f["Kids"]: walk(k, r, ft)
            else: leaves.append(r)
        if form is not None:
            for r in form["Fields"]: walk(r, None, None)
        if sorted(leaves) != sorted(widgets): self.err("widgets on pages %r but terminal fields %r" % (sorted(widgets), sorted(leaves)))
        # every typed object must have been visited from a page
        for n, o in pdf.objs.items():
            if isinstance(o, outi.PDFStream):
                try: pdf.stream(o)
                except Malformed as e: self.err("stream %d: %s" % (n, e))
                self.count("stream")

    def err(self, m): raise Malformed("PDF: " + m)
    def get(self, v): return self.pdf.get(v)
    def count(self, k): self.stats[k] = self.stats.get(k, 0)+1

    def info(self):
        inf = self.get(self.pdf.trailer.get("Info"))
        if inf is None: return
        for k, v in inf.items():
            if not isinstance(v, bytes): self.err("Info /%s is no string" % k)
        if "CreationDate" in inf and not re.match(rb"D:\d{4}(\d\d){0,5}([-+Z](\d\d'\d\d'?)?)?$", inf["CreationDate"]): self.err("CreationDate %r" % inf["CreationDate"])

    def rect(self, r, what, ordered=True):
        if len(r) != 4 or not all(isinstance(v, (int, float)) and math.isfinite(v) for v in r) or ordered and (r[0] > r[2] or r[1] > r[3]): self.err("%s %r" % (what, r))

    def da(self, f):
        d = f.get("DA")
        if not isinstance(d, bytes): self.err("field without /DA")
        t = d.decode("latin1").split()
        if "Tf" not in t: self.err("/DA without Tf: %r" % d)
        n = t[t.index("Tf")-2]
        dr = self.get(f.get("DR", {}))
        if not n.startswith("/") or n[1:] not in self.get(dr.get("Font", {})): self.err("/DA font %s not in /DR" % n)
        self.resources(dr, "field /DR")

    def resources(self, res, what):
        res = self.get(res)
        if not isinstance(res, dict): self.err("%s without /Resources" % what)
        for cat, d in res.items():
            d = self.get(d)
            if cat == "ProcSet":
                if not isinstance(d, list): self.err("ProcSet")
                continue
            if cat not in ("Font", "XObject", "Pattern", "Shading", "ExtGState", "ColorSpace"): self.err("resource category %s" % cat)
            for n, r in d.items():
                o = self.get(r)
                if id(o) in self.seen: continue
                self.seen.add(id(o))
                self.count(cat)
                getattr(self, "r_" + cat)(o, "%s /%s /%s" % (what, cat, n))

    def r_Font(self, o, what):
        if o.get("Type") != "Font": self.err("%s: /Type %s" % (what, o.get("Type")))
        if o.get("Subtype") not in ("Type1", "Type3", "TrueType", "Type0"): self.err("%s: /Subtype" % what)
        if not isinstance(o.get("BaseFont"), str): self.err("%s without /BaseFont" % what)
        std = o["BaseFont"] in ("Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic", "Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique", "Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique", "Symbol", "ZapfDingbats")
        w = self.get(o.get("Widths"))
        if w is None:
            if not std: self.err("%s without /Widths" % what)
        else:
            if len(w) != o["LastChar"]-o["FirstChar"]+1: self.err("%s: %d widths for chars %d to %d" % (what, len(w), o["FirstChar"], o["LastChar"]))
            if not all(isinstance(x, (int, float)) for x in w): self.err("%s: widths" % what)
        e = self.get(o.get("Encoding"))
        if isinstance(e, dict):
            if e.get("Type", "Encoding") != "Encoding": self.err("%s: encoding type" % what)
            k = None
            for x in e.get("Differences", []):
                if isinstance(x, int): k = x
                elif k is None: self.err("%s: Differences start with a name" % what)
                else:
                    if k > 255: self.err("%s: Differences beyond 255" % what)
                    k += 1
        fd = self.get(o.get("FontDescriptor"))
        if fd is None:
            if not std: self.err("%s without FontDescriptor" % what)
        else:
            for k in ("FontName", "Flags", "FontBBox", "ItalicAngle", "Ascent", "Descent", "StemV"):
                if k not in fd and k not in ("Ascent", "Descent"): self.err("%s: descriptor without /%s" % (what, k))
            if fd["FontName"] != o["BaseFont"]: self.err("%s: /FontName %s but /BaseFont %s" % (what, fd["FontName"], o["BaseFont"]))
            ff = self.get(fd.get("FontFile"))
            if ff is None:
                if not std and "FontFile2" not in fd and "FontFile3" not in fd: self.err("%s not embedded" % what)
            else:
                data = self.pdf.stream(ff)
                if ff["Length1"]+ff["Length2"]+ff["Length3"] != len(data): self.err("%s: font file lengths %d+%d+%d, data %d" % (what, ff["Length1"], ff["Length2"], ff["Length3"], len(data)))
                if not data.startswith(b"%!"): self.err("%s: font file does not start with %%!" % what)
                if not data[:ff["Length1"]].rstrip().endswith(b"eexec"): self.err("%s: Length1 is not at eexec" % what)
                m = re.search(rb"/FontName\s*/(\S+)", data[:ff["Length1"]])
                base = re.sub("^[A-Z]{6}[+]", "", o["BaseFont"])
                if m is None: self.err("%s: embedded font without /FontName" % what)
                self.count("fontfile")

    def image(self, o, what, mask=False):
        w, h, bpc = o["Width"], o["Height"], o["BitsPerComponent"]
        cs = self.get(o["ColorSpace"])
        if isinstance(cs, list):
            if cs[0] != "Indexed" or cs[1] not in NCOMP: self.err("%s: color space %r" % (what, cs))
            tab = self.get(cs[3])
            if isinstance(tab, outi.PDFStream): tab = self.pdf.stream(tab)
            if (cs[2]+1)*NCOMP[cs[1]] != len(tab): self.err("%s: /Indexed hival %r for %d bytes of %s" % (what, cs[2], len(tab), cs[1]))
            n = 1
        else:
            if cs not in NCOMP: self.err("%s: color space %r" % (what, cs))
            n = NCOMP[cs]
        if mask and cs != "DeviceGray": self.err("%s: soft mask in %s" % (what, cs))
        data = self.pdf.stream(o)
        if o.get("Filter") == "DCTDecode":
            from PIL import Image
            im = Image.open(io.BytesIO(data)); im.load()
            if im.size != (w, h) or len(im.getbands()) != n: self.err("%s: jpeg %r %s for %dx%d %s" % (what, im.size, im.mode, w, h, cs))
        elif len(data) != (w*n*bpc+7)//8*h: self.err("%s: %d bytes for %dx%d %s" % (what, len(data), w, h, cs))
        if n == 1 and isinstance(cs, list) and o.get("Filter") != "DCTDecode" and data and max(data) > cs[2]: self.err("%s: index %d beyond palette" % (what, max(data)))
        if "SMask" in o: self.image(self.get(o["SMask"]), what + " smask", True)
        self.count("image")

    def form(self, o, what):
        if o.get("Subtype") != "Form": self.err("%s: no form" % what)
        self.rect(o["BBox"], what + " BBox", ordered=False)   # any two opposite corners (fields on rotated pages)
        self.sub(o, what)

    def sub(self, o, what):
        data = self.pdf.stream(o)
        self.resources(o.get("Resources"), what)
        before = getattr(self.pdf, "ops_in_path", 0)
        self.pdf.content(data, self.get(o.get("Resources", {})), outi.GS(), [], True)
        if getattr(self.pdf, "ops_in_path", 0) != before: self.err("%s: operators between path construction and painting" % what)
        self.spaces(data, what)

    def r_XObject(self, o, what):
        if o.get("Subtype") == "Image": self.image(o, what)
        elif o.get("Subtype") == "Form": self.form(o, what)
        else: self.err("%s: subtype" % what)

    def r_Pattern(self, o, what):
        if o.get("Type", "Pattern") != "Pattern": self.err("%s: type" % what)
        if o["PatternType"] != 1: self.err("%s: pattern type" % what)
        if o["PaintType"] not in (1, 2) or o["TilingType"] not in (1, 2, 3): self.err("%s: paint/tiling type" % what)
        if not o["XStep"] or not o["YStep"]: self.err("%s: zero step" % what)
        self.rect(o["BBox"], what)
        if "Matrix" in o and (len(o["Matrix"]) != 6): self.err("%s: matrix" % what)
        self.sub(o, what)

    def r_Shading(self, o, what):
        t = o["ShadingType"]
        if t != 4: self.err("%s: shading type %r" % (what, t))
        n = NCOMP.get(self.get(o["ColorSpace"]))
        if n is None: self.err("%s: color space" % what)
        bits = o["BitsPerFlag"]+2*o["BitsPerCoordinate"]+n*o["BitsPerComponent"]
        if len(o["Decode"]) != 4+2*n: self.err("%s: /Decode %r" % (what, o["Decode"]))
        data = self.pdf.stream(o)
        if bits % 8 or len(data) % (bits//8) or (len(data)//(bits//8)) % 3 or not data: self.err("%s: %d bytes of mesh data" % (what, len(data)))
        d = o["Decode"]
        if any(d[k] > d[k+1] for k in range(0, len(d), 2)): self.err("%s: /Decode %r" % (what, d))

    def r_ExtGState(self, o, what):
        if o.get("Type", "ExtGState") != "ExtGState": self.err("%s: type" % what)
        for k in ("CA", "ca"):
            if k in o and not 0 <= o[k] <= 1: self.err("%s: /%s %r" % (what, k, o[k]))

    def r_ColorSpace(self, o, what): pass

    def spaces(self, data, what):
        "patterns may only be selected in the Pattern colour space"
        lex = outi.PS(data)
        st = []
        stack = []
        fs, ss = "DeviceGray", "DeviceGray"
        while True:
            t = lex.token()
            if t is None: return
            if type(t) is not outi.Name or t in ("[", "]"): st.append(t); continue
            if t == "q": stack.append((fs, ss))
            elif t == "Q": fs, ss = stack.pop()
            elif t in ("g", "rg", "k"): fs = "Device"
            elif t in ("G", "RG", "K"): ss = "Device"
            elif t == "cs": fs = st[-1]
            elif t == "CS": ss = st[-1]
            elif t in ("scn", "SCN"):
                s = fs if t == "scn" else ss
                if s != "Pattern": self.err("%s: pattern %s selected in colour space %s" % (what, st[-1], s))
                self.count("scn")
            st.clear()


def pdftext(b):
    "text string of a PDF"
    if b[:2] == b"\xfe\xff": return b[2:].decode("utf-16-be")
    return b.decode("latin1")


def check_pdf(data):
    pdf, pages = outi.read_pdf(data)
    return pdf, pages, PDFCheck(pdf, pages)


# ---------------------------------------------------------------- PostScript structure comments
KNOWN = """BoundingBox HiResBoundingBox Creator CreationDate Title EndComments BeginProlog EndProlog BeginResource EndResource
BeginProcSet EndProcSet BeginFont EndFont BeginData EndData BeginBinary EndBinary BeginSetup EndSetup BeginPageSetup EndPageSetup
BeginDefaults EndDefaults BeginDocument EndDocument BeginFeature EndFeature Page Pages PageOrder PageMedia PageOrientation PageBoundingBox PageTrailer
Trailer EOF DocumentMedia DocumentNeededResources DocumentSuppliedResources DocumentFonts DocumentData LanguageLevel Orientation
For Copyright Version IncludeResource IncludeFeature Extensions CropBox PageHiResBoundingBox DocumentNeededFonts DocumentSuppliedFonts
BeginPreview EndPreview BeginObject EndObject PageResources PageFonts ViewingOrientation Requirements DocumentProcessColors DocumentCustomColors VMusage VMlocation""".split()
BE = {k[5:] for k in KNOWN if k.startswith("Begin")}


def dsc(data, eps):
    """check the structure comments of a PS/EPS file. Returns a dict with header values"""
    def err(m): raise Malformed("DSC: " + m)
    lines = data.split(b"\n")
    if lines[0] != (b"%!PS-Adobe-3.0 EPSF-3.0" if eps else b"%!PS-Adobe-3.0"): err("first line %r" % lines[0][:60])
    if not data.endswith(b"%%EOF\n"): err("does not end with %%EOF")
    head = {}
    stack = []
    state = "header"
    npages = 0
    i = 1
    depthdoc = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if state == "header" and not l.startswith(b"%%"):
            err("header line %r" % l[:60])
        if not l.startswith(b"%%"): continue
        m = re.match(rb"%%([A-Za-z]+|\+)(:?)(.*)$", l, re.S)
        if not m: 
            if stack and stack[-1][0] in ("Data", "Binary", "Document", "Font", "Resource"): continue
            err("comment %r" % l[:60])
        kw, colon, arg = m.group(1).decode(), m.group(2), m.group(3).strip().decode("latin1")
        if stack and stack[-1][0] == "Document" and kw not in ("EndDocument", "BeginDocument"): continue
        if stack and stack[-1][0] == "Font" and kw not in ("EndFont", "BeginFont"): continue       # comments of the font file
        if kw == "+": continue
        if kw not in KNOWN: err("unknown structure comment %r" % l[:60])
        if kw.startswith("Begin") and kw[5:] in BE:
            stack.append((kw[5:], arg, i))
            if kw == "BeginData":
                m = re.match(r"(\d+) (Hex|Binary|ASCII) (Bytes|Lines)$", arg)
                if not m: err("%r" % l)
                n = int(m.group(1))
                if m.group(3) == "Lines":
                    if i+n >= len(lines) or not lines[i+n].startswith(b"%%EndData"):
                        k = next((k for k in range(i, len(lines)) if lines[k].startswith(b"%%EndData")), -1)
                        err("BeginData announces %d lines, EndData follows after %d" % (n, k-i))
                    i += n
                else: err("BeginData in bytes")
            continue
        if kw.startswith("End") and kw[3:] in BE:
            if not stack or stack[-1][0] != kw[3:]: err("%s closes %s" % (kw, stack[-1:] ))
            stack.pop()
            if kw == "EndProlog": state = "script"
            continue
        if kw == "EndComments":
            if state != "header": err("second EndComments")
            state = "prolog"; continue
        if kw in ("Page", "Trailer", "EOF", "Pages") and stack: err("%s inside %s" % (kw, stack))
        if kw == "Page":
            if eps: err("Page comment in an EPS file")
            m = re.match(r"(\([^()]*\)|[^\s()]+) (\d+)$", arg)
            if not m: err("page comment %r" % l)
            npages += 1
            if int(m.group(2)) != npages: err("page ordinal %r for page %d" % (arg, npages))
            head.setdefault("labels", []).append(m.group(1))
            continue
        if kw == "Trailer": state = "trailer"; continue
        if kw == "EOF":
            if state != "trailer": err("EOF without Trailer")
            if i != len(lines)-1: err("content after EOF")
            continue
        if state == "header":
            if kw in head: err("duplicate %s" % kw)
            if not colon: err("%s without colon" % kw)
            head[kw] = arg
        elif kw.startswith("Page"): head.setdefault(kw, []).append((npages, arg))
        else: err("%s outside the header" % kw)
    if stack: err("unclosed %s" % stack)
    if state != "trailer": err("no Trailer")
    def ints(k):
        if not re.match(r"-?\d+( -?\d+){3}$", head[k]): err("%s: %s" % (k, head[k]))
        b = tuple(map(int, head[k].split()))
        if b[0] > b[2] or b[1] > b[3]: err("%s: %s" % (k, head[k]))
        return b
    if eps and "BoundingBox" not in head: err("EPS without BoundingBox")
    if "BoundingBox" in head: head["bb"] = ints("BoundingBox")
    if "HiResBoundingBox" in head:
        h = head["hires"] = tuple(map(float, head["HiResBoundingBox"].split()))
        b = head["bb"]
        if len(h) != 4: err("HiResBoundingBox")
        for k in range(4):
            if abs(b[k]-h[k]) > 1.01 + 1e-5*abs(h[k]) or (b[k]-h[k])*(1 if k < 2 else -1) > 1e-5*abs(h[k])+1e-9: err("BoundingBox %s vs HiRes %s" % (b, h))
    if not eps:
        if head.get("Pages") != str(npages): err("Pages: %s but %d pages" % (head.get("Pages"), npages))
    return head


def check_ps(data, eps):
    head = dsc(data, eps)
    return head, outi.read_ps(data)
