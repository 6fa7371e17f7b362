"""An independent interpreter of DVI files, virtual fonts and font metrics.

Written from the DVI, VF and TFM format definitions; raises Bad for anything malformed."""
import subprocess, functools, struct


class Bad(Exception): pass


@functools.lru_cache(None)
def kpse(name):
    if "\0" in name: return None
    r = subprocess.run(["kpsewhich", "--", name], capture_output=True, text=True).stdout.strip()
    return r or None


class Buf:
    def __init__(self, data): self.d, self.p = data, 0
    def raw(self, n):
        if n < 0 or self.p+n > len(self.d): raise Bad("truncated at %d" % self.p)
        self.p += n
        return self.d[self.p-n:self.p]
    def u(self, n): return int.from_bytes(self.raw(n), "big")
    def s(self, n): return int.from_bytes(self.raw(n), "big", signed=True)
    def eof(self): return self.p >= len(self.d)


class TFM:
    def __init__(self, data):
        b = Buf(data)
        lf, lh, bc, ec, nw, nh, nd, ni, nl, nk, ne, np = [b.u(2) for _ in range(12)]
        if lf*4 != len(data): raise Bad("tfm length")
        words = lambda n: [b.s(4)/2**20 for _ in range(n)]
        head = [b.raw(4) for _ in range(lh)]
        self.checksum = int.from_bytes(head[0], "big")
        self.design = int.from_bytes(head[1], "big")/2**20          # TeX points
        info = [b.raw(4) for _ in range(ec-bc+1)]
        self.bc, self.ec, self.info = bc, ec, info
        self.W, self.H, self.D, self.I = words(nw), words(nh), words(nd), words(ni)

    def has(self, c): return self.bc <= c <= self.ec and self.info[c-self.bc][0] != 0
    def width(self, c):
        if not self.has(c): raise Bad("no character %d" % c)
        return self.W[self.info[c-self.bc][0]]
    def height(self, c): return self.H[self.info[c-self.bc][1] >> 4]
    def depth(self, c): return self.D[self.info[c-self.bc][1] & 15]
    def italic(self, c): return self.I[self.info[c-self.bc][2] >> 2]


@functools.lru_cache(None)
def tfm(name):
    f = kpse(name+".tfm")
    if f is None: raise Bad("no metric for %s" % name)
    return TFM(open(f, "rb").read())


class VF:
    def __init__(self, data):
        b = Buf(data)
        if b.u(1) != 247 or b.u(1) != 202: raise Bad("no vf")
        b.raw(b.u(1))
        self.checksum, self.design = b.u(4), b.u(4)/2**20
        self.fonts, self.first, self.chars = {}, None, {}
        while 1:
            c = b.u(1)
            if c < 242:
                code, w = b.u(1), b.u(3); self.chars[code] = b.raw(c)
            elif c == 242:
                n, code, w = b.u(4), b.u(4), b.s(4); self.chars[code] = b.raw(n)
            elif 243 <= c <= 246:
                k = b.s(4) if c == 246 else b.u(c-242)
                cs, s, d = b.u(4), b.u(4), b.u(4)
                n = b.u(1)+b.u(1)
                self.fonts[k] = (b.raw(n).decode("ascii"), s/2**20)
                if self.first is None: self.first = k
            elif c == 248: break
            else: raise Bad("vf byte %d" % c)


@functools.lru_cache(None)
def vf(name):
    f = kpse(name+".vf")
    return VF(open(f, "rb").read()) if f else None


class Char:
    "one character: font, size in TeX points, code, position in bp (y up)"
    def __init__(self, font, size, code, x, y, depth): self.font, self.size, self.code, self.x, self.y, self.level = font, size, code, x, y, depth
    def __repr__(self): return "%s@%.3f/%d(%.3f,%.3f)" % (self.font, self.size, self.code, self.x, self.y)


class Page:
    def __init__(self, counts): self.counts, self.items = counts, []
    @property
    def chars(self): return [i for i in self.items if isinstance(i, Char)]
    @property
    def rules(self): return [i[1:] for i in self.items if not isinstance(i, Char) and i[0] == "rule"]
    @property
    def specials(self): return [i[1:] for i in self.items if not isinstance(i, Char) and i[0] == "special"]


class DVI:
    def __init__(self, data, vfs=True, getvf=vf, gettfm=tfm):
        self.vfs, self.getvf, self.gettfm = vfs, getvf, gettfm
        b = Buf(data)
        if b.u(1) != 247: raise Bad("no preamble")
        if b.u(1) != 2: raise Bad("version")
        num, den, self.mag = b.u(4), b.u(4), b.u(4)
        self.conv = num/den*self.mag/1000*1e-7/0.0254*72           # dvi unit in bp
        self.tpt = num/den*1e-7/0.0254*72.27                        # dvi unit in TeX points (unmagnified)
        b.raw(b.u(1))
        self.fonts, self.pages = {}, []
        while 1:
            c = b.u(1)
            if c == 138: continue
            if c == 139:
                self.page = Page([b.s(4) for _ in range(10)])
                b.s(4)
                self.run(b, self.fonts, None, [0]*6, 1, 0, True)
                self.pages.append(self.page)
            elif 243 <= c <= 246: self.fontdef(b, c)
            elif c == 248: break
            else: raise Bad("byte %d between pages" % c)

    def fontdef(self, b, c):
        k = b.s(4) if c == 246 else b.u(c-242)
        b.u(4); s, d = b.u(4), b.u(4)
        n = b.u(1)+b.u(1)
        try: self.fonts[k] = (b.raw(n).decode("ascii"), s*self.tpt)
        except UnicodeDecodeError: raise Bad("font name")      # size in TeX points

    def run(self, b, fonts, font, pos, scale, level, toplevel):
        """interpret commands; scale: command units -> dvi units"""
        h, v, w, x, y, z = pos
        stack = []
        put = lambda kind, *a: self.page.items.append((kind,)+a)
        X = lambda: h*self.conv
        Y = lambda: -v*self.conv

        def char(code, move):
            nonlocal h
            if font is None: raise Bad("no font")
            name, size = font
            t = self.gettfm(name)
            wd = t.width(code)*size/self.tpt
            virtual = self.getvf(name) if self.vfs else None
            if virtual is not None:
                if code not in virtual.chars: raise Bad("no virtual character %d" % code)
                if level > 10: raise Bad("recursion")
                sub = {k: (n, s*size) for k, (n, s) in virtual.fonts.items()}
                self.run(Buf(virtual.chars[code]), sub, sub.get(virtual.first), [h, v, 0, 0, 0, 0], size/self.tpt/2**20, level+1, False)
            else: self.page.items.append(Char(name, size, code, X(), Y(), level))
            if move: h += wd
        while 1:
            if not toplevel and b.eof(): return
            c = b.u(1)
            if c < 128: char(c, True)
            elif c < 132: char(b.s(4) if c == 131 else b.u(c-127), True)
            elif 133 <= c < 137: char(b.s(4) if c == 136 else b.u(c-132), False)
            elif c in (132, 137):
                a, d = b.s(4)*scale, b.s(4)*scale
                if a > 0 and d > 0: put("rule", X(), Y(), d*self.conv, a*self.conv)
                if c == 132: h += d
            elif c == 138: pass
            elif c == 140 and toplevel:
                if stack: raise Bad("stack at end of page")
                return
            elif c == 141: stack.append((h, v, w, x, y, z))
            elif c == 142:
                if not stack: raise Bad("pop")
                h, v, w, x, y, z = stack.pop()
            elif 143 <= c <= 146: h += b.s(c-142)*scale
            elif 147 <= c <= 151:
                if c > 147: w = b.s(c-147)*scale
                h += w
            elif 152 <= c <= 156:
                if c > 152: x = b.s(c-152)*scale
                h += x
            elif 157 <= c <= 160: v += b.s(c-156)*scale
            elif 161 <= c <= 165:
                if c > 161: y = b.s(c-161)*scale
                v += y
            elif 166 <= c <= 170:
                if c > 166: z = b.s(c-166)*scale
                v += z
            elif 171 <= c <= 238:
                k = c-171 if c < 235 else b.s(4) if c == 238 else b.u(c-234)
                if k not in fonts: raise Bad("undefined font %d" % k)
                font = fonts[k]
            elif 239 <= c <= 242: put("special", b.raw(b.u(c-238)).decode("utf-8", "surrogateescape"), X(), Y())
            elif 243 <= c <= 246 and toplevel: self.fontdef(b, c)
            else: raise Bad("command %d" % c)
