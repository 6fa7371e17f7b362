"""C17: images and colour meshes read back from PS, PDF and SVG sample by sample."""
import base64, io, math, struct, warnings, zlib
import geo, gen, pub, outi
from harness import Skip
from pyx import bitmap, canvas, color, document, mesh, path, pattern, trafo, unit
from PIL import Image

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("canvases and documents with 1-6 images (PyX and PIL images of every mode, palettes of every mode and size, JPEG files of several encoders, resolutions and "
        "segment orders; same data in different modes, same image repeated) under all compression and storage settings and placements, and meshes of all colour "
        "spaces; pixels, palette, opacity, corner positions and bounding boxes read back by independent interpreters of PS, PDF, SVG and PNG; distinct by mode, size, settings")
QUICK, THOROUGH = 3500, 400000
REQUIRED = {"CMYK in eps": 45, "CMYK in pdf": 107, "CMYK in ps": 61, "CMYKA in eps": 16, "CMYKA in pdf": 41, "CMYKA in ps": 29, "L in eps": 50, "L in pdf": 114, "L in ps": 73, "L in svg": 76, "LA in eps": 26, "LA in pdf": 62, "LA in ps": 39, "LA in svg": 31, "RGB in eps": 94, "RGB in pdf": 245, "RGB in ps": 182, "RGB in svg": 116, "RGBA in eps": 24, "RGBA in pdf": 62, "RGBA in ps": 45, "RGBA in svg": 26, "corners": 18885, "dct in eps": 81, "dct in pdf": 81, "dct in svg": 51, "dct:baseline": 27, "dct:optimized": 29, "dct:progressive": 24, "gs samples": 93, "image:ACMYK": 17, "image:AL": 17, "image:ARGB": 16, "image:CMYK": 18, "image:CMYKA": 18, "image:L": 37, "image:LA": 37, "image:P-CMYK": 41, "image:P-L": 66, "image:P-RGB": 100, "image:PIL-1": 31, "image:PIL-CMYK": 16, "image:PIL-HSV": 17, "image:PIL-L": 33, "image:PIL-LA": 29, "image:PIL-P": 30, "image:PIL-P-file": 31, "image:PIL-PNG": 30, "image:PIL-RGB": 30, "image:PIL-RGBA": 35, "image:PIL-YCbCr": 19, "image:PIL-bmp": 36, "image:RGB": 28, "image:RGBA": 29, "image:flate-CMYK": 12, "image:flate-L": 8, "image:flate-RGB": 9, "image:jpeg-CMYK": 36, "image:jpeg-CMYK+": 34, "image:jpeg-L": 30, "image:jpeg-L+": 33, "image:jpeg-RGB": 32, "image:jpeg-RGB+": 28, "jpeg in eps": 57, "jpeg in pdf": 131, "jpeg in ps": 90, "jpeg in svg": 80, "jpeg segments": 3, "mesh again": 52, "mesh bitmap": 3, "mesh bitmap samples": 12, "mesh in eps": 317, "mesh in pdf": 317, "mesh:cmyk": 88, "mesh:gray": 90, "mesh:rgb": 87, "pattern eps": 28, "pattern pdf": 31, "refused": 5, "same data": 7, "same indices": 58, "samples": 518604, "written eps": 129, "written pdf": 264, "written ps": 135, "written svg": 152}
DIRECTED = ["meshbitmap", "refused", "empty", "flatmesh", "ghostscript", "jpegsegments", "quality"]
NCOMP = {"L": 1, "RGB": 3, "CMYK": 4}
PT = 72/2.54


# ---------------------------------------------------------------- wanted samples
class Pic:
    "an image, its model, the samples (bytes per pixel as tuples), the opacities or None; jpeg: the bytes of the file"
    def __init__(self, im, model, px, alpha, size, jpeg=None, what="", svg=True):
        self.im, self.model, self.px, self.alpha, self.size, self.jpeg, self.what, self.svg = im, model, px, alpha, size, jpeg, what, svg


def rbytes(rng, n):
    r = rng.random()
    if r < .1: return bytes(n)
    if r < .2: return b"\xff"*n
    if r < .3: return bytes((i*7) % 256 for i in range(n))
    if r < .35: return (b"~>%%EndData\n\0\r\nendstream\n"*(n//20 + 1))[:n]
    if r < .45: return bytes(rng.choice((0, 255, 13, 10, 37)) for i in range(n))
    return bytes(rng.getrandbits(8) for i in range(n))


def chunks(data, n): return [tuple(data[i:i + n]) for i in range(0, len(data), n)]


def rsize(rng):
    return rng.choice([(1, 1), (1, 7), (9, 1), (2, 3), (5, 4), (16, 16), (33, 7), (64, 40), (rng.randint(1, 30), rng.randint(1, 30))])


def rpic(rng):
    w, h = rsize(rng)
    k = rng.random()
    if k < .18: return jpegpic(rng)
    if k < .33:
        pm = rng.choice(["L", "RGB", "CMYK"]); n = rng.choice([1, 2, 5, 64, 255, 256]); nc = NCOMP[pm]
        pal = rbytes(rng, n*nc); data = bytes(rng.randrange(n) for i in range(w*h))
        cols = chunks(pal, nc)
        return Pic(bitmap.image(w, h, "P", data, palette=bitmap.palette(pm, pal)), pm, [cols[i] for i in data], None, (w, h), what="P-" + pm, svg=pm != "CMYK")
    if k < .6:
        mode = rng.choice(["L", "RGB", "CMYK", "LA", "RGBA", "CMYKA", "AL", "ARGB", "ACMYK"])
        data = rbytes(rng, w*h*len(mode))
        px = chunks(data, len(mode))
        im = bitmap.image(w, h, mode, rng.choice([data, data, bytearray(data)]) if mode in NCOMP else data)
        if isinstance(im.data, bytearray): im.data = bytes(im.data)
        alpha = None; model = mode.strip("A")
        if mode[0] == "A": alpha = [p[0] for p in px]; px = [p[1:] for p in px]
        elif mode[-1] == "A": alpha = [p[-1] for p in px]; px = [p[:-1] for p in px]
        return Pic(im, model, px, alpha, (w, h), what=mode, svg=mode in ("L", "LA", "RGB", "RGBA"))
    if k < .65:
        mode = rng.choice(["L", "RGB", "CMYK"]); data = rbytes(rng, w*h*len(mode))
        return Pic(bitmap.image(w, h, mode, zlib.compress(data, rng.choice([0, 1, 9])), compressed="Flate"), mode, chunks(data, len(mode)), None, (w, h), what="flate-" + mode, svg=False)
    mode = rng.choice(["L", "RGB", "RGBA", "P", "1", "LA", "CMYK", "YCbCr", "HSV", "P-file", "PNG", "bmp"])
    if mode in ("P", "P-file"):
        im = Image.frombytes("RGB", (w, h), rbytes(rng, 3*w*h)).quantize(rng.choice([2, 16, 200]))
        if mode == "P-file":
            f = io.BytesIO(); im.save(f, rng.choice(["png", "gif", "bmp", "tiff"])); im = Image.open(io.BytesIO(f.getvalue()))
            if rng.random() < .5: im.load()
    elif mode in ("PNG", "bmp"):
        im = Image.frombytes("RGB", (w, h), rbytes(rng, 3*w*h)); f = io.BytesIO(); im.save(f, mode, **({"dpi": (150, 100)} if rng.random() < .5 else {})); im = Image.open(io.BytesIO(f.getvalue()))
    elif mode == "1": im = Image.frombytes("L", (w, h), rbytes(rng, w*h)).convert("1")
    elif mode == "YCbCr": im = Image.frombytes("RGB", (w, h), rbytes(rng, 3*w*h)).convert(mode)
    else: im = Image.frombytes(mode, (w, h), rbytes(rng, len(mode)*w*h))
    ref = im.copy(); alpha = None
    if ref.mode in ("LA", "RGBA"): alpha = list(ref.getchannel("A").tobytes()); ref = Image.merge(ref.mode[:-1], ref.split()[:-1])
    ref = ref.convert({"1": "L", "L": "L", "CMYK": "CMYK"}.get(ref.mode, "RGB"))
    return Pic(im, ref.mode, chunks(ref.tobytes(), len(ref.mode)), alpha, (w, h), what="PIL-" + mode, svg=mode in ("L", "RGB", "RGBA", "P", "1", "LA", "P-file", "PNG", "bmp"))


def segment(marker, data): return bytes([255, marker]) + struct.pack(">H", len(data) + 2) + data


def jpegpic(rng, extra=None):
    w, h = rng.choice([(3, 5), (16, 16), (40, 25), (1, 1), (100, 9)])
    m = rng.choice(["L", "RGB", "CMYK"])
    im = Image.frombytes(m, (w, h), bytes((i*5) % 256 for i in range(len(m)*w*h)) if rng.random() < .5 else rbytes(rng, len(m)*w*h))
    f = io.BytesIO()
    dpi = None; kw = {}
    if rng.random() < .4: dpi = kw["dpi"] = (rng.choice([72, 100, 300]), rng.choice([72, 150, 600]))
    im.save(f, "jpeg", quality=rng.choice([30, 90]), progressive=rng.random() < .3, optimize=rng.random() < .3, **kw)
    data = f.getvalue()
    if rng.random() < .3 and data[2:4] == b"\xff\xe0":
        # dots per cm
        dpc = rng.choice([28, 40, 118]), rng.choice([28, 59, 236])
        data = data[:13] + bytes([2]) + struct.pack(">HH", *dpc) + data[18:]; dpi = (dpc[0]*2.54, dpc[1]*2.54)
    if dpi is None and data[2:4] == b"\xff\xe0" and data[13] == 0: pass
    extra = extra if extra is not None else [rng.choice(SEGMENTS)() for i in range(rng.choice([0, 0, 1, 2]))]
    if extra:
        pos = 2
        if data[2:4] == b"\xff\xe0": pos += 2 + struct.unpack(">H", data[4:6])[0]
        data = data[:pos] + b"".join(extra) + data[pos:]
    src = data
    if rng.random() < .2: src = data + rbytes(rng, 10)
    p = Pic(bitmap.jpegimage(io.BytesIO(src)), m, None, None, (w, h), jpeg=data, what="jpeg-%s%s" % (m, "+" if extra else ""))
    p.dpi = dpi
    return p


def thumbnail():
    f = io.BytesIO(); Image.new("RGB", (7, 11)).save(f, "jpeg"); return f.getvalue()


SEGMENTS = [lambda: segment(0xfe, b"a comment"), lambda: segment(0xe1, b"Exif\0\0" + thumbnail()), lambda: segment(0xe2, b"ICC_PROFILE\0\1\1" + bytes(40)),
            lambda: segment(0xed, b"Photoshop 3.0\0" + bytes(range(60)))]
HARD = {"begin": b"ICC \xff\xd8 x", "end": b"ICC \xff\xd9 x", "frame": b"x\xff\xc0\0\x11\x08\0\x21\0\x22\3" + bytes(12), "resolution": b"x\xff\xe0\0\x10JFIF\0\1\1\1\0\x33\0\x44\0\0"}


# ---------------------------------------------------------------- reading back
def psimage(e):
    d = e.dict; D = d.get("DataDict", d)
    w, h = D["Width"], D["Height"]
    sp = e.space; pal = None
    if isinstance(sp, list): model = str(sp[1])[6:]; pal = chunks(bytes(sp[3]), {"Gray": 1, "RGB": 3, "CMYK": 4}[model]); n = 1
    else: model = str(sp)[6:]; n = {"Gray": 1, "RGB": 3, "CMYK": 4}[model]
    model = "L" if model == "Gray" else model
    dec = list(D["Decode"])
    if dec != ([0, 255] if pal is not None else [0, 1]*n): raise outi.Malformed("Decode %r" % dec)
    if D["BitsPerComponent"] != 8: raise outi.Malformed("bits")
    data = e.data; alpha = None
    if d["ImageType"] == 3:
        M = d["MaskDict"]
        if list(M["Decode"]) != [1, 0] or tuple(M["ImageMatrix"]) != tuple(D["ImageMatrix"]) or M["BitsPerComponent"] != 8: raise outi.Malformed("MaskDict %r" % (M,))
        px = chunks(data, n + 1); alpha = [p[0] for p in px]; px = [p[1:] for p in px]
    else: px = data
    if isinstance(px, (bytes, bytearray)):
        if isinstance(D["DataSource"], tuple) and "DCTDecode" in D["DataSource"][2]: return w, h, model, data, None
        px = chunks(data, n)
    if pal is not None: px = [pal[p[0]] for p in px]
    m = geo.mul(geo.inv(tuple(D["ImageMatrix"])), e.ctm)
    return w, h, model, px, alpha


def pdfimage(pdf, e):
    o = e.obj; w, h = o["Width"], o["Height"]
    def one(o):
        sp = pdf.get(o["ColorSpace"]); pal = None
        if isinstance(sp, list):
            model = str(pdf.get(sp[1]))[6:]; lk = pdf.get(sp[3]); lk = lk if isinstance(lk, (bytes, bytearray)) else pdf.stream(lk)
            n = 1; nc = {"Gray": 1, "RGB": 3, "CMYK": 4}[model]
            if len(lk) != nc*(sp[2] + 1): raise outi.Malformed("palette of %d bytes for %d entries" % (len(lk), sp[2] + 1))
            pal = chunks(lk, nc)
        else: model = str(sp)[6:]; n = {"Gray": 1, "RGB": 3, "CMYK": 4}[model]
        if o["BitsPerComponent"] != 8 or "Decode" in o: raise outi.Malformed("bits or Decode")
        data = pdf.stream(o); fl = o.get("Filter")
        if fl == "DCTDecode" or (isinstance(fl, list) and "DCTDecode" in fl): return model.replace("Gray", "L"), data
        if len(data) != w*h*n: raise outi.Malformed("%d bytes of image data for %dx%dx%d" % (len(data), w, h, n))
        px = chunks(data, n)
        if pal is not None:
            if max(p[0] for p in px) >= len(pal): raise outi.Malformed("index beyond the palette")
            px = [pal[p[0]] for p in px]
        return model.replace("Gray", "L"), px
    model, px = one(o)
    alpha = None
    if "SMask" in o:
        s = pdf.get(o["SMask"])
        if (s["Width"], s["Height"]) != (w, h): raise outi.Malformed("size of the mask")
        mm, al = one(s)
        if mm != "L": raise outi.Malformed("mask in %s" % mm)
        alpha = [p[0] for p in al]
    return w, h, model, px, alpha


def png(data):
    "an own decoder of the PNG files"
    if data[:8] != b"\x89PNG\r\n\x1a\n": raise outi.Malformed("no PNG file")
    pos = 8; idat = b""; pal = trns = None
    while pos < len(data):
        n, = struct.unpack(">I", data[pos:pos + 4]); name = data[pos + 4:pos + 8]; body = data[pos + 8:pos + 8 + n]
        if struct.unpack(">I", data[pos + 8 + n:pos + 12 + n])[0] != zlib.crc32(name + body): raise outi.Malformed("CRC of %r" % name)
        pos += 12 + n
        if name == b"IHDR": w, h, bits, kind, comp, filt, inter = struct.unpack(">2I5B", body)
        elif name == b"PLTE": pal = chunks(body, 3)
        elif name == b"IDAT": idat += body
        elif name == b"tRNS": trns = body
        elif name == b"IEND" and pos != len(data): raise outi.Malformed("data after IEND")
    n = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[kind]
    if inter: raise outi.Malformed("interlaced")
    raw = zlib.decompress(idat); stride = (w*n*bits + 7)//8; bpp = max(1, n*bits//8)
    if len(raw) != h*(stride + 1): raise outi.Malformed("%d bytes in IDAT" % len(raw))
    rows = []; prev = bytearray(stride)
    for y in range(h):
        f = raw[y*(stride + 1)]; row = bytearray(raw[y*(stride + 1) + 1:(y + 1)*(stride + 1)])
        for i in range(stride):
            a = row[i - bpp] if i >= bpp else 0; b = prev[i]; c = prev[i - bpp] if i >= bpp else 0
            if f == 1: row[i] = (row[i] + a) & 255
            elif f == 2: row[i] = (row[i] + b) & 255
            elif f == 3: row[i] = (row[i] + (a + b)//2) & 255
            elif f == 4:
                p = a + b - c; pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                row[i] = (row[i] + (a if pa <= pb and pa <= pc else b if pb <= pc else c)) & 255
        prev = row
        if bits == 8: rows += chunks(row, n)
        else:
            v = [(row[k*bits//8] >> (8 - bits - k*bits % 8)) & ((1 << bits) - 1) for k in range(w)]
            rows += [(x if kind == 3 else x*255//((1 << bits) - 1),) for x in v]
    alpha = None
    if kind == 3:
        if max(p[0] for p in rows) >= len(pal): raise outi.Malformed("index beyond the palette")
        rows = [pal[p[0]] for p in rows]
    if kind in (4, 6): alpha = [p[-1] for p in rows]; rows = [p[:-1] for p in rows]
    return w, h, "L" if kind in (0, 4) else "RGB", rows, alpha


def svgimage(e):
    h = e.href
    if e.elem.get("preserveAspectRatio") != "none": raise outi.Malformed("preserveAspectRatio")
    kind, data = h.split(";base64,"); data = base64.b64decode(data, validate=True)
    if kind == "data:image/png": return png(data)
    if kind == "data:image/jpeg":
        im = Image.open(io.BytesIO(data)); return im.size + (im.mode, data, None)
    raise outi.Malformed("image of %r" % kind)


def corners(e, fmt):
    "page coordinates of the picture's upper left, upper right, lower left corner"
    if fmt in ("ps", "eps"):
        d = e.dict.get("DataDict", e.dict); w, h = d["Width"], d["Height"]
        m = geo.mul(geo.inv(tuple(d["ImageMatrix"])), e.ctm)
        return [geo.ap(m, p) for p in ((0, 0), (w, 0), (0, h))]
    if fmt == "pdf": return [geo.ap(e.ctm, p) for p in ((0, 1), (1, 1), (0, 0))]
    x, y, w, h = e.rect
    return [geo.ap(e.ctm, p) for p in ((x, y), (x + w, y), (x, y + h))]


def asrgb(model, p):
    return p if model == "RGB" else p*3


# ---------------------------------------------------------------- images
def settings(rng, p, svg):
    kw = {}
    if p.jpeg is not None or p.what.startswith("flate"): kw["compressmode"] = None
    else:
        if rng.random() < .6: kw["compressmode"] = rng.choice(["Flate", None] if not svg else ["Flate"])
        if rng.random() < .3: kw["flatecompresslevel"] = rng.choice([0, 1, 9])
    if rng.random() < .4: kw["PSstoreimage"] = 1
    if rng.random() < .5: kw["PSmaxstrlen"] = rng.choice([4, 10, 57, 60, 100, 4093, 65535])
    if rng.random() < .5: kw["PSbinexpand"] = rng.choice([1, 2])
    return kw


def place(rng, p, kw):
    "(item, matrix of the unit square)"
    w, h = p.size
    k = rng.random()
    if k < .25:
        m = (rng.uniform(-50, 50), rng.uniform(-50, 50), rng.uniform(-50, 50), rng.uniform(-50, 50), rng.uniform(-99, 99), rng.uniform(-99, 99))
        if abs(m[0]*m[3] - m[1]*m[2]) < 100: m = (20, 0, 0, -30, m[4], m[5])
        return bitmap.bitmap_trafo(trafo.trafo_pt(((m[0], m[2]), (m[1], m[3])), (m[4], m[5])), p.im, **kw), m
    ispt = rng.random() < .4
    x, y = rng.choice([0, 1, gen.num(rng)*.1]), rng.choice([0, -2, gen.num(rng)*.1])
    s = 1 if ispt else PT
    ww, hh = rng.uniform(.1, 8)*(20 if ispt else 1), rng.uniform(.1, 8)*(20 if ispt else 1)
    W = "width_pt" if ispt else "width"; H = "height_pt" if ispt else "height"
    ratio = rng.choice([.5, 1, 3, rng.uniform(.2, 5)])
    c = rng.randrange(6); a = {}
    dpi = getattr(p, "dpi", None)
    if dpi is None and not p.what.startswith("jpeg"): dpi = getattr(p.im, "info", {}).get("dpi") if not isinstance(p.im, bitmap.image) else None
    if c == 0 and dpi: s = 1 if ispt else PT; ww, hh = 72*w/dpi[0]/s, 72*h/dpi[1]/s
    elif c == 1: a = {W: ww}; hh = ww*h/w
    elif c == 2: a = {H: hh}; ww = hh*w/h
    elif c == 3: a = {W: ww, "ratio": ratio}; hh = ww/ratio
    elif c == 4: a = {H: hh, "ratio": ratio}; ww = hh*ratio
    else: a = {W: ww, H: hh}
    f = bitmap.bitmap_pt if ispt else bitmap.bitmap
    if not ispt and rng.random() < .3: x, a = x*unit.t_cm, {k: (v*unit.t_cm if k != "ratio" else v) for k, v in a.items()}; 
    it = f(x if ispt or not isinstance(x, unit.length) else x, y, p.im, **a, **kw)
    x = x if not isinstance(x, unit.length) else unit.tocm(x)
    return it, (ww*s, 0, 0, hh*s, x*s, y*s)


def images(rng, mon):
    svg = rng.random() < .4
    c = canvas.canvas(); want = []
    pool = []
    desc = []
    for i in range(rng.choice([1, 1, 2, 3, 6])):
        if pool and rng.random() < .3: p = rng.choice(pool)
        elif pool and rng.random() < .6 and pool[-1].what.startswith("P-") and isinstance(pool[-1].im, bitmap.image):
            # the same indices with other colours
            q = pool[-1]; data = q.im.data; pm = rng.choice([q.model, "RGB"]); old = q.im.palette.data
            pal = rbytes(rng, len(old)//NCOMP[q.model]*NCOMP[pm]); cc = chunks(pal, NCOMP[pm])
            p = Pic(bitmap.image(*q.size, "P", data, palette=bitmap.palette(pm, pal)), pm, [cc[x] for x in data], None, q.size, what="P-" + pm, svg=pm != "CMYK"); mon.count("same indices")
        elif pool and rng.random() < .25 and pool[-1].px is not None and isinstance(pool[-1].im, bitmap.image) and pool[-1].what in NCOMP:
            # the same data as another image
            q = pool[-1]; data = q.im.data; w, h = q.size; n = len(q.what)
            k = rng.randrange(4)
            if k == 0: p = Pic(bitmap.image(h, w, q.what, data), q.what, q.px, None, (h, w), what=q.what, svg=q.svg)
            elif k == 1: p = Pic(bitmap.image(w*n, h, "L", data), "L", chunks(data, 1), None, (w*n, h), what="L")
            elif k == 2 and n == 1:
                pal = rbytes(rng, 768); cc = chunks(pal, 3)
                p = Pic(bitmap.image(w, h, "P", data, palette=bitmap.palette("RGB", pal)), "RGB", [cc[x] for x in data], None, (w, h), what="P-RGB")
            else:
                al = rbytes(rng, w*h)
                d2 = b"".join(bytes(x) + al[j:j + 1] for j, x in enumerate(q.px))
                p = Pic(bitmap.image(w, h, q.what + "A", d2), q.what, q.px, list(al), (w, h), what=q.what + "A", svg=n < 4)
            mon.count("same data")
        else: p = rpic(rng)
        if svg and not p.svg: continue
        pool.append(p)
        kw = settings(rng, p, svg)
        it, m = place(rng, p, kw)
        desc.append("%s %dx%d %r" % (p.what, *p.size, kw))
        mon.count("image:" + p.what)
        bb = it.bbox(); cs = [geo.ap(m, q) for q in ((0, 0), (1, 0), (0, 1), (1, 1))]
        wb = (min(q[0] for q in cs), min(q[1] for q in cs), max(q[0] for q in cs), max(q[1] for q in cs))
        hb = tuple(unit.topt(v()) for v in (bb.left, bb.bottom, bb.right, bb.top))
        mon.check(all(abs(a - b) < 1e-6*(1 + abs(b)) for a, b in zip(hb, wb)), "bbox", lambda: "%s: box %r instead of %r" % (desc[-1], hb, wb))
        k = rng.random()
        if k < .3:
            a = rng.uniform(0, 360); t = trafo.rotate(a).translated_pt(3, 4).scaled(rng.choice([1, 2, .5])); c.insert(it, [t])
            x0, y0 = t.apply_pt(0, 0); x1, y1 = t.apply_pt(1, 0); x2, y2 = t.apply_pt(0, 1)
            m = geo.mul(m, (x1 - x0, y1 - y0, x2 - x0, y2 - y0, x0, y0))
        else: c.insert(it)
        want.append((p, m, kw))
        mon.nontrivial((p.what, p.size, tuple(sorted(kw.items(), key=str))))
    if not want: raise Skip
    mon.describe("; ".join(desc))
    for fmt in ["svg"] if svg else rng.choice([["eps", "pdf"], ["ps", "pdf"]]):
        obj = c; pages = 1
        if fmt == "ps" or (fmt == "pdf" and rng.random() < .3):
            pages = rng.choice([1, 2]); obj = document.document([document.page(c) for i in range(pages)])
        kw = {"compress": rng.random() < .7} if fmt == "pdf" and obj is not c else {}
        data = pub.write(obj, fmt, **kw)
        pdf = None
        if fmt == "pdf": pdf, pgs = outi.read_pdf(data)
        else: pgs = pub.read(data, fmt)
        mon.check(len(pgs) == pages, "pages", lambda: "%d" % len(pgs))
        for pg in pgs:
            evs = [e for e in pg.events if e.op == "image"]
            mon.check(len(evs) == len(want), "count", lambda: "%s: %d images instead of %d" % (fmt, len(evs), len(want)))
            for e, (p, m, kw) in zip(evs, want):
                w, h, model, px, alpha = psimage(e) if fmt in ("ps", "eps") else pdfimage(pdf, e) if fmt == "pdf" else svgimage(e)
                mon.check((w, h) == p.size, "size", lambda: "%s in %s: %dx%d instead of %r" % (p.what, fmt, w, h, p.size))
                cs = corners(e, fmt); wc = [geo.ap(m, q) for q in ((0, 1), (1, 1), (0, 0))]
                far = 1 + max(abs(v) for q in wc for v in q)
                mon.check(all(math.dist(a, b) < (2e-5 if fmt != "svg" else 1e-3)*far for a, b in zip(cs, wc)), "corners", lambda: "%s in %s: corners %r instead of %r" % (p.what, fmt, cs, wc))
                if p.jpeg is not None:
                    mon.check(px == p.jpeg, "jpeg", lambda: "%s in %s: the data differ from the file" % (p.what, fmt))
                    mon.check(model == p.model, "model", lambda: "%s in %s: %s" % (p.what, fmt, model))
                    mon.check(alpha is None, "alpha", lambda: "opacity for a JPEG file")
                    mon.count("jpeg in " + fmt); continue
                if fmt == "svg": a, b = [asrgb(model, tuple(x)) for x in px], [asrgb(p.model, tuple(x)) for x in p.px]
                else:
                    mon.check(model == p.model, "model", lambda: "%s in %s: %s instead of %s" % (p.what, fmt, model, p.model))
                    a, b = px, p.px
                bad = [i for i in range(len(b)) if tuple(a[i]) != tuple(b[i])] if len(a) == len(b) else [0]
                mon.check(not bad, "samples", lambda: "%s in %s with %r: %d of %d samples differ, first %d: %r instead of %r" % (p.what, fmt, kw, len(bad), len(b), bad[0], a[bad[0]], b[bad[0]]))
                mon.check(alpha == p.alpha, "alpha", lambda: "%s in %s: opacities %r instead of %r" % (p.what, fmt, (alpha or [])[:9], (p.alpha or [])[:9]))
                mon.check(fmt == "ps" or fmt == "eps" or e.alpha in (None, 1), "alpha", lambda: "image drawn with opacity %r" % e.alpha)
                mon.count("samples", len(b)); mon.count("%s in %s" % (p.model + ("A" if p.alpha else ""), fmt))
        mon.count("written " + fmt)


def patterned(rng, mon):
    "an image inside of a pattern (its data cannot be read from the file there)"
    p = rpic(rng)
    kw = settings(rng, p, False)
    it, m = place(rng, p, kw)
    mon.describe("pattern %s %r" % (p.what, kw))
    pat = pattern.pattern(); pat.insert(it)
    c = canvas.canvas(); c.fill(path.rect(0, 0, 5, 5), [pat])
    from pyx import document
    fmt = rng.choice(["eps", "pdf"])
    data = pub.write(c, fmt)
    if fmt == "eps":
        ps = outi.read_ps(data)
        evs = [e for pg in ps.pages for e in pg.events]
        f = [e for e in evs if e.op == "fill"]
        mon.check(len(f) == 1, "pattern", lambda: "%r" % [e.op for e in evs])
    else:
        pdf, pgs = outi.read_pdf(data)
        ims = [o for o in pdf.objs.values() if isinstance(o, dict) and o.get("Subtype") == "Image" and o.get("ColorSpace") is not None]
        mon.check(len(ims) == (2 if p.alpha is not None else 1), "pattern", lambda: "%d images" % len(ims))
        for o in ims:
            if p.alpha is not None and "SMask" not in o: continue
            class E: pass
            e = E(); e.obj = o
            w, h, model, px, alpha = pdfimage(pdf, e)
            mon.check((w, h, model) == p.size + (p.model,), "pattern", lambda: "%r" % ((w, h, model),))
            if p.jpeg is not None: mon.check(px == p.jpeg, "pattern", lambda: "JPEG data differ")
            else: mon.check([tuple(x) for x in px] == [tuple(x) for x in p.px] and alpha == p.alpha, "pattern", lambda: "samples differ for %s" % p.what)
    mon.count("pattern " + fmt); mon.nontrivial(("pattern", p.what, fmt, str(kw)))


def dct(rng, mon):
    "images compressed by PIL"
    w, h = rng.choice([(16, 16), (33, 7), (64, 40)])
    mode = rng.choice(["L", "RGB", "CMYK"])
    # smooth contents
    k = [rng.uniform(.5, 3) for i in range(len(mode))]
    px = bytes(int(127 + 120*math.sin(k[j]*(x/w + .7*y/h) + j)) for y in range(h) for x in range(w) for j in range(len(mode)))
    im = Image.frombytes(mode, (w, h), px)
    kw = {"compressmode": "DCT"}
    if rng.random() < .7: kw["dctquality"] = rng.choice([10, 50, 95, 100])
    prog = rng.choice([0, 0, 1]); opt = rng.choice([0, 1])
    if prog or rng.random() < .3: kw["dctprogression"] = prog
    if opt or rng.random() < .3: kw["dctoptimize"] = opt
    for s in ("PSstoreimage", "PSmaxstrlen", "PSbinexpand"):
        if rng.random() < .3: kw[s] = {"PSstoreimage": 1, "PSmaxstrlen": 100, "PSbinexpand": 2}[s]
    mon.describe("%s %dx%d %r" % (mode, w, h, kw))
    c = canvas.canvas(); c.insert(bitmap.bitmap(0, 0, im, width=3, **kw))
    got = {}
    fmts = ["eps", "pdf"] + (["svg"] if mode != "CMYK" else [])
    for fmt in fmts:
        data = pub.write(c, fmt)
        if fmt == "pdf": pdf, pgs = outi.read_pdf(data)
        else: pgs = pub.read(data, fmt)
        e, = [e for e in pgs[0].events if e.op == "image"]
        W, H, model, j, alpha = psimage(e) if fmt == "eps" else pdfimage(pdf, e) if fmt == "pdf" else svgimage(e)
        mon.check(isinstance(j, (bytes, bytearray)) and (W, H, model, alpha) == (w, h, mode, None), "dct", lambda: "%s: %r" % (fmt, (W, H, model)))
        im2 = Image.open(io.BytesIO(j)); im2.load()
        mon.check(im2.size == (w, h) and im2.mode == mode, "dct", lambda: "%s: JPEG data of size %r, mode %s" % (fmt, im2.size, im2.mode))
        raw = im2.tobytes()
        if mode == "CMYK" and j.find(b"Adobe") >= 0: raw = bytes(255 - x for x in raw)      # PIL turns the samples of such files round
        err = sum(abs(a - b) for a, b in zip(raw, px))/len(px)
        mon.check(err < (30 if kw.get("dctquality", 75) < 30 else 10), "dct:samples", lambda: "%s: mean deviation %.1f with %r" % (fmt, err, kw))
        if fmt != "svg":
            sof = [j[i + 1] for i in markers(j) if j[i + 1] in (0xc0, 0xc1, 0xc2)]
            mon.check(sof == [0xc2 if prog else 0xc0], "dct:progression", lambda: "%s with %r: frame markers %r" % (fmt, kw, sof)); got[fmt] = bytes(j)
        mon.count("dct in " + fmt)
    mon.check(got["eps"] == got["pdf"], "dct", lambda: "different data in EPS and PDF")
    mon.count("dct:%s" % ("progressive" if prog else "optimized" if opt else "baseline")); mon.nontrivial(("dct", mode, w, str(kw)))


def markers(j):
    "positions of the markers of a JPEG file up to the first scan"
    pos = 2; out = []
    while pos < len(j) and j[pos + 1] != 0xda:
        out.append(pos); pos += 2 + struct.unpack(">H", j[pos + 2:pos + 4])[0]
    return out


# ---------------------------------------------------------------- meshes
def rmesh(rng):
    kind = rng.choice(["gray", "rgb", "cmyk"]); n = {"gray": 1, "rgb": 3, "cmyk": 4}[kind]
    s = rng.choice([1, 100, 1e4, .01]); ox, oy = rng.choice([0, 0, 1e3]), rng.choice([0, -500])
    ispt = rng.random() < .5
    els, want = [], []
    pool = []
    for i in range(rng.choice([1, 2, 5, 30])):
        nodes = []
        for j in range(3):
            if pool and rng.random() < .3: nd, w = rng.choice(pool)
            else:
                x, y = ox + rng.uniform(-s, s), oy + rng.uniform(-s, s); v = tuple(rng.choice([0, 1, rng.random(), rng.randrange(256)/255]) for k in range(n))
                c = getattr(color, kind)(*v)
                if ispt: nd = mesh.node_pt((x, y), c); w = (x, y, v)
                else: nd = mesh.node((x/PT, (y/PT)*unit.t_cm), c); w = (x, y, v)
                pool.append((nd, w))
            nodes.append(nd); want.append(w)
        els.append(mesh.element(rng.choice([list, tuple])(nodes)))
    return mesh.mesh(els, **({} if rng.random() < .8 else {"check": rng.choice([0, 1])})), kind, want


def readmesh(d, data, mon, what):
    mon.check(d["ShadingType"] == 4 and d["BitsPerCoordinate"] == 24 and d["BitsPerComponent"] == 8 and d["BitsPerFlag"] == 8, "mesh:encoding", lambda: "%s: %r" % (what, d))
    kind = {"DeviceGray": "gray", "DeviceRGB": "rgb", "DeviceCMYK": "cmyk"}[str(d["ColorSpace"])]; n = {"gray": 1, "rgb": 3, "cmyk": 4}[kind]
    dec = [float(x) for x in d["Decode"]]
    mon.check(len(dec) == 4 + 2*n and dec[4:] == [0, 1]*n, "mesh:decode", lambda: "%s: Decode %r" % (what, dec))
    L = 7 + n
    mon.check(len(data) % (3*L) == 0, "mesh:length", lambda: "%s: %d bytes" % (what, len(data)))
    out = []
    for i in range(0, len(data), L):
        mon.check(data[i] == 0, "mesh:flag", lambda: "%s: flag %d" % (what, data[i]))
        x, y = (int.from_bytes(data[i + k:i + k + 3], "big")/(2**24 - 1) for k in (1, 4))
        out.append((dec[0] + x*(dec[1] - dec[0]), dec[2] + y*(dec[3] - dec[2]), tuple(b/255 for b in data[i + 7:i + L])))
    return kind, out, ((dec[1] - dec[0])/2**24, (dec[3] - dec[2])/2**24)


def meshes(rng, mon):
    c = canvas.canvas(); want = []
    for i in range(rng.choice([1, 1, 2, 3])):
        m, kind, w = rmesh(rng)
        bb = m.bbox(); hb = tuple(unit.topt(v()) for v in (bb.left, bb.bottom, bb.right, bb.top))
        wb = (min(q[0] for q in w), min(q[1] for q in w), max(q[0] for q in w), max(q[1] for q in w))
        mon.check(all(abs(a - b) < 1e-9*(1 + abs(b)) for a, b in zip(hb, wb)), "mesh:bbox", lambda: "box %r instead of %r" % (hb, wb))
        if rng.random() < .3: c.insert(m, [trafo.scale(2).translated_pt(3, 4)]); t = (2, 0, 0, 2, 3, 4)
        else: c.insert(m); t = geo.IDENT
        want.append((kind, w, t)); mon.count("mesh:" + kind)
        if rng.random() < .2: c.insert(m); want.append((kind, w, geo.IDENT)); mon.count("mesh again")
    mon.describe("%s" % [(k, len(w)) for k, w, t in want])
    for fmt in ("eps", "pdf"):
        kw = {"compress": rng.random() < .5} if fmt == "pdf" else {}
        obj = document.document([document.page(c)]) if kw else c
        data = pub.write(obj, fmt, **kw)
        pdf = None
        if fmt == "pdf": pdf, pgs = outi.read_pdf(data)
        else: pgs = pub.read(data, fmt)
        evs = [e for e in pgs[0].events if e.op == "shading"]
        mon.check(len(evs) == len(want), "mesh:count", lambda: "%s: %d for %d" % (fmt, len(evs), len(want)))
        for e, (kind, w, t) in zip(evs, want):
            k, got, res = readmesh(e.dict, e.data, mon, fmt) if fmt == "eps" else readmesh(e.obj, pdf.stream(e.obj), mon, fmt)
            mon.check(k == kind and len(got) == len(w), "mesh:count", lambda: "%s: %d corners in %s instead of %d in %s" % (fmt, len(got), k, len(w), kind))
            mon.check(max(abs(a - b) for a, b in zip(e.ctm, t)) < 1e-4, "mesh:trafo", lambda: "%r instead of %r" % (e.ctm, t))
            for a, b in zip(got, w):
                mon.check(abs(a[0] - b[0]) <= 1.1*res[0] + 2e-6 + 1e-9*abs(b[0]) and abs(a[1] - b[1]) <= 1.1*res[1] + 2e-6 + 1e-9*abs(b[1]), "mesh:corner", lambda: "%s: %r instead of %r, resolution %r" % (fmt, a, b, res))
                mon.check(all(abs(p - q) <= .5001/255 for p, q in zip(a[2], b[2])), "mesh:color", lambda: "%s: %r instead of %r" % (fmt, a, b))
            mon.count("mesh in " + fmt); mon.count("corners", len(w))
        mon.nontrivial(("mesh", kind, len(w), round(w[0][0])))


# ---------------------------------------------------------------- directed
def meshbitmap(rng, mon):
    "meshes as bitmaps (the only way to SVG)"
    for i in range(4):
        kind = ["rgb", "gray", "cmyk", "rgb"][i]; n = {"gray": 1, "rgb": 3, "cmyk": 4}[kind]
        v = [tuple(rng.random() for k in range(n)) for j in range(3)]
        P = [(10., 20.), (150. + 10*i, 35.), (70., 140.)]
        m = mesh.mesh([mesh.element([mesh.node_pt(P[j], getattr(color, kind)(*v[j])) for j in range(3)])])
        c = canvas.canvas(); c.insert(m)
        for fmt in ("svg", "eps", "pdf"):
            kw = {"write_mesh_as_bitmap": True, "write_mesh_as_bitmap_resolution": 72} if fmt != "svg" else {"write_mesh_as_bitmap_resolution": 72}
            data = pub.write(c, fmt, **kw)
            if fmt == "pdf": pdf, pgs = outi.read_pdf(data)
            else: pgs = pub.read(data, fmt)
            ims = [e for e in pgs[0].events if e.op == "image"]
            mon.check(len(ims) == 1, "meshbitmap", lambda: "%s: %d images" % (fmt, len(ims)))
            e = ims[0]
            w, h, model, px, alpha = psimage(e) if fmt == "eps" else pdfimage(pdf, e) if fmt == "pdf" else svgimage(e)
            cs = corners(e, fmt)
            inv = geo.inv((cs[1][0] - cs[0][0], cs[1][1] - cs[0][1], cs[2][0] - cs[0][0], cs[2][1] - cs[0][1], *cs[0]))
            mon.check(alpha is not None, "meshbitmap", lambda: "%s without opacity" % fmt)
            for a, b, g in ((.8, .1, .1), (.1, .8, .1), (.1, .1, .8), (.34, .33, .33)):
                q = tuple(a*P[0][k] + b*P[1][k] + g*P[2][k] for k in (0, 1)); cc = tuple(a*x + b*y + g*z for x, y, z in zip(*v))
                wc = cc*3 if n == 1 else cc if n == 3 else tuple(1 - min(1, x + cc[3]) for x in cc[:3])
                x, y = geo.ap(inv, q); x, y = int(x*w), int(y*h)
                got = asrgb(model, tuple(px[y*w + x]))
                tol = 10 if n < 4 else 60
                mon.check(alpha[y*w + x] == 255 and (n == 4 or all(abs(p - 255*r) < tol for p, r in zip(got, wc))), "meshbitmap:color", lambda: "%s: %r at %r instead of %r, opacity %d" % (fmt, got, q, [255*r for r in wc], alpha[y*w + x]))
                mon.count("mesh bitmap samples")
            for q in ((15, 130), (160, 120)):
                x, y = geo.ap(inv, q); x, y = int(x*w), int(y*h)
                if 0 <= x < w and 0 <= y < h: mon.check(alpha[y*w + x] == 0, "meshbitmap:outside", lambda: "%s: opacity %d outside of the mesh" % (fmt, alpha[y*w + x]))
            mon.count("mesh bitmap")
    mon.nontrivial("meshbitmap")


def refused(mon):
    def no(mech, f, *args, **kw):
        try: f(*args, **kw)
        except (ValueError, RuntimeError): mon.count("refused")
        else: mon.fail("refused:" + mech, "accepted")
    I = bitmap.image
    no("size", I, 0, 1, "L", b""); no("size", I, 1, -1, "L", b""); no("mode", I, 1, 1, "XYZ", b"\0\0\0"); no("mode", I, 1, 1, "", b"")
    for d in (b"", b"\0", b"\0\0\0\0"): no("length", I, 1, 1, "RGB", d)
    im = I(2, 2, "L", bytes(4))
    no("ratio", bitmap.bitmap, 0, 0, im, width=1, height=1, ratio=1); no("ratio", bitmap.bitmap, 0, 0, im, ratio=1)
    no("compression", bitmap.bitmap, 0, 0, im, width=1, compressmode="LZW")
    no("compression", bitmap.bitmap, 0, 0, I(2, 2, "L", b"x", compressed="Flate"), width=1)
    no("compression", bitmap.bitmap, 0, 0, I(2, 2, "L", b"x", compressed="LZW"), width=1, compressmode=None)
    for d in (b"", b"\xff\xd8", b"GIF89a" + bytes(100), b"\xff\xd8\xff\xd9"): no("jpeg", bitmap.jpegimage, io.BytesIO(d))
    n = mesh.node_pt; g = color.gray(0)
    no("mesh", mesh.mesh, [mesh.element([n((0, 0), g), n((1, 1), g)])])
    no("mesh", mesh.mesh, [mesh.element([n((0, 0), g), n((1, 0), color.rgb.red), n((1, 1), g)])])
    no("mesh", mesh.mesh, [mesh.element([n((0, 0), g), n((1, 0), color.hsb(0, 0, 0)), n((1, 1), g)])])
    no("mesh", mesh.mesh, [mesh.element([n((0, 0, 0), g), n((1, 0, 0), g), n((1, 1, 0), g)])])
    no("mesh", mesh.mesh, [mesh.element([n((0, 0), 1), n((1, 0), 2), n((1, 1), 3)])])
    mon.nontrivial("refused")


def empty(mon):
    m = mesh.mesh([]); c = canvas.canvas(); c.insert(m); c.stroke(path.line(0, 0, 1, 1))
    for fmt in ("eps", "pdf", "svg"):
        evs = pub.events(c, fmt)[0]
        mon.check([e.op for e in evs] == ["stroke"], "mesh:empty", lambda: "%s: %r" % (fmt, [e.op for e in evs]))
    mon.count("empty mesh"); mon.nontrivial("empty")


def flatmesh(mon):
    "meshes without width or height"
    for P in ([(0, 5), (3, 5), (1, 5)], [(2, 0), (2, 4), (2, 1)], [(1, 1)]*3):
        c = canvas.canvas(); c.insert(mesh.mesh([mesh.element([mesh.node_pt(p, color.gray(.5)) for p in P])]))
        c.stroke(path.line(0, 0, 1, 1))
        for fmt in ("eps", "pdf"):
            data = pub.write(c, fmt)
            pdf = None
            if fmt == "pdf": pdf, pgs = outi.read_pdf(data)
            else: pgs = pub.read(data, fmt)
            evs = [e for e in pgs[0].events if e.op == "shading"]
            for e in evs:
                k, got, res = readmesh(e.dict, e.data, mon, fmt) if fmt == "eps" else readmesh(e.obj, pdf.stream(e.obj), mon, fmt)
                for a, b in zip(got, P): mon.check(math.dist(a[:2], b) < 1e-5, "mesh:flat", lambda: "%r instead of %r" % (a, b))
            mon.count("flat mesh")
    mon.nontrivial("flat")


def ghostscript(rng, mon):
    "what Ghostscript paints for the EPS and PDF files"
    import subprocess, os
    for i in range(3):
        w, h = rng.choice([(5, 4), (16, 9), (3, 7)])
        mode = ["L", "RGB", "P"][i]
        if mode == "P":
            pal = rbytes(rng, 30); data = bytes(rng.randrange(10) for k in range(w*h)); im = bitmap.image(w, h, "P", data, palette=bitmap.palette("RGB", pal)); px = [chunks(pal, 3)[x] for x in data]
        else: data = rbytes(rng, w*h*len(mode)); im = bitmap.image(w, h, mode, data); px = [asrgb(mode, x) for x in chunks(data, len(mode))]
        c = canvas.canvas(); c.insert(bitmap.bitmap_pt(0, 0, im, width_pt=w*10, **settings(rng, Pic(im, mode, px, None, (w, h)), False)))
        for fmt in ("eps", "pdf"):
            src, out = os.path.join(mon.tmp, "x." + fmt), os.path.join(mon.tmp, "x.png")
            open(src, "wb").write(pub.write(c, fmt, page_bboxenlarge=0))
            r = subprocess.run(["gs", "-q", "-dSAFER", "-dBATCH", "-dNOPAUSE", "-sDEVICE=png16m", "-r72", "-dEPSCrop" if fmt == "eps" else "-dUseCropBox", "-sOutputFile=" + out, src], capture_output=True, timeout=100)
            mon.check(r.returncode == 0 and os.path.exists(out), "gs", lambda: "%r" % r.stdout[-300:])
            g = Image.open(out).convert("RGB")
            mon.check(abs(g.size[0] - w*10) <= 1 and abs(g.size[1] - h*10) <= 1, "gs:size", lambda: "%r" % (g.size,))
            for y in range(h):
                for x in range(w):
                    q = g.getpixel((10*x + 5, 10*y + 5))
                    mon.check(all(abs(a - b) <= 2 for a, b in zip(q, px[y*w + x])), "gs:samples", lambda: "%s: %r at %d %d instead of %r" % (fmt, q, x, y, px[y*w + x]))
            os.unlink(out); mon.count("gs"); mon.count("gs samples", w*h)
    mon.nontrivial("gs")


def jpegsegments(rng, mon):
    "segments of a JPEG file that contain bytes looking like markers"
    for name, d in HARD.items():
        for kind in (0xe2, 0xfe, 0xe0):
            if kind == 0xe0: d2 = b"JFXX\0\x10" + d
            else: d2 = d
            mon.describe("%s in segment %x" % (name, kind))
            p = jpegpic(rng, [segment(kind, d2)])
            mon.check(p.im.size == p.size and p.im.mode == p.model, "jpeg:segments", lambda: "%s: %r %s instead of %r %s" % (name, p.im.size, p.im.mode, p.size, p.model))
            mon.check(p.im.tobytes() == p.jpeg, "jpeg:segments", lambda: "%s: data" % name)
            if p.dpi is not None: mon.check(all(abs(a - b) < 1e-9 for a, b in zip(p.im.info["dpi"], p.dpi)), "jpeg:resolution", lambda: "%r instead of %r" % (p.im.info, p.dpi))
            mon.count("jpeg segments")
    mon.nontrivial("segments")


def quality(mon):
    "the quality reaches the encoder"
    im = Image.frombytes("RGB", (64, 64), bytes((x*y*(j + 3)) % 256 for y in range(64) for x in range(64) for j in range(3)))
    n = []
    for q in (5, 40, 75, 95):
        c = canvas.canvas(); c.insert(bitmap.bitmap(0, 0, im, width=1, compressmode="DCT", dctquality=q))
        pdf, pgs = outi.read_pdf(pub.write(c, "pdf")); n.append(len(pdf.stream(pgs[0].events[0].obj)))
    mon.check(n == sorted(n) and n[0] < n[-1]/2, "dct:quality", lambda: "%r bytes" % n); mon.count("quality"); mon.nontrivial("quality")


def run_case(kind, i, rng, mon):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "meshbitmap": return meshbitmap(rng, mon)
        if kind == "refused": return refused(mon)
        if kind == "empty": return empty(mon)
        if kind == "flatmesh": return flatmesh(mon)
        if kind == "ghostscript": return ghostscript(rng, mon)
        if kind == "jpegsegments": return jpegsegments(rng, mon)
        if kind == "quality": return quality(mon)
        k = rng.random()
        if k < .6: return images(rng, mon)
        if k < .68: return patterned(rng, mon)
        if k < .78: return dct(rng, mon)
        meshes(rng, mon)
