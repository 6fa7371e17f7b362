"""Independent reader and interpreter of Type 1 fonts (Adobe Type 1 Font Format, 1990).

Font(data): data is a PFB file, a PFA file, or the bytes of a PDF FontFile stream / the part of a
PostScript file which defines one font.  Font.glyph(name) -> Glyph with advance, side bearing, the
absolute outline (as contours) and the hints in the order they are declared."""
import re, binascii

STANDARD = [None]*256
def _std():
    s = {32: "space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine colon semicolon less equal greater question at",
         91: "bracketleft backslash bracketright asciicircum underscore quoteleft", 123: "braceleft bar braceright asciitilde",
         161: "exclamdown cent sterling fraction yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi fl",
         177: "endash dagger daggerdbl periodcentered", 182: "paragraph bullet quotesinglbase quotedblbase quotedblright guillemotright ellipsis perthousand",
         191: "questiondown", 193: "grave acute circumflex tilde macron breve dotaccent dieresis", 202: "ring cedilla", 205: "hungarumlaut ogonek caron emdash",
         225: "AE", 227: "ordfeminine", 232: "Lslash Oslash OE ordmasculine", 241: "ae", 245: "dotlessi", 248: "lslash oslash oe germandbls"}
    for k, v in s.items():
        for i, n in enumerate(v.split()): STANDARD[k+i] = n
    for i in range(26): STANDARD[65+i] = chr(65+i); STANDARD[97+i] = chr(97+i)
_std()


class Bad(Exception): pass


def decrypt(code, r, n):
    out = bytearray()
    for c in code:
        out.append(c ^ (r >> 8)); r = ((c+r)*52845+22719) % 65536
    return bytes(out[n:])


def encrypt(plain, r, lead):
    out = bytearray()
    for p in lead+plain:
        c = p ^ (r >> 8); out.append(c); r = ((c+r)*52845+22719) % 65536
    return bytes(out)


def segments(data):
    "PFB -> list of (kind, bytes)"
    p, out = 0, []
    while True:
        if data[p] != 128: raise Bad("segment marker at %d" % p)
        k = data[p+1]
        if k == 3:
            if p+2 != len(data): raise Bad("data after the end segment")
            return out
        n = int.from_bytes(data[p+2:p+6], "little")
        if k not in (1, 2) or p+6+n > len(data): raise Bad("segment")
        out.append((k, data[p+6:p+6+n])); p += 6+n


TOK = re.compile(rb"\s*(?:%[^\r\n]*[\r\n]\s*)*([\[\]{}]|/?[^\s\[\]{}/%()<>]*)")


class Font:
    def __init__(self, data, split=None):
        if split:   # (length of the clear text, length of the encrypted part)
            clear, rest = data[:split[0]], data[split[0]:split[0]+split[1]]; self.tail = data[split[0]+split[1]:]
        elif data[:1] == b"\x80":
            s = segments(data)
            i = 0
            while i < len(s) and s[i][0] == 1: i += 1
            j = i
            while j < len(s) and s[j][0] == 2: j += 1
            clear = b"".join(x for k, x in s[:i]); rest = b"".join(x for k, x in s[i:j]); self.tail = b"".join(x for k, x in s[j:])
        else:
            i = data.index(b"eexec")+5
            clear, rest = data[:i], data[i:]
            while rest[:1] in (b" ", b"\n", b"\r", b"\t"): rest = rest[1:]
            self.tail = None
        if re.fullmatch(rb"[0-9a-fA-F\s]{4}", rest[:4]):
            m = re.search(rb"(?:0\s*){512}", rest)
            h = rest[:m.start()] if m else rest
            self.tail = rest[m.start():] if m else b""
            h = re.sub(rb"\s", b"", h)
            k = re.match(rb"[0-9a-fA-F]*", h).end()
            rest = binascii.unhexlify(h[:k//2*2])
        self.clear = clear
        self.private = decrypt(rest, 55665, 4)
        self._clear(); self._private()

    def _clear(self):
        c = re.sub(rb"(?m)%[^\r\n]*", b"", self.clear)
        m = re.search(rb"/FontName\s*/(\S+)", c); self.name = m.group(1).decode("latin1")
        m = re.search(rb"/FontMatrix\s*\[([^\]]*)\]", c); self.matrix = [float(x) for x in m.group(1).split()]
        m = re.search(rb"/Encoding\s+(\S+)\s+(\S+)", c)
        if m.group(1) == b"StandardEncoding": self.encoding = list(STANDARD); self.standard = True
        else:
            self.standard = False
            self.encoding = [None]*256
            e = c[m.start():]
            z = re.search(rb"(?<=\s)(readonly\s+)?def\b", e)
            for x in re.finditer(rb"\bdup\s+(\d+)\s*/(\S+)\s+put\b", e[:z.start()]): self.encoding[int(x.group(1))] = x.group(2).decode("latin1")

    def _private(self):
        p = self.private
        i = p.index(b"/CharStrings"); s = p.find(b"/Subrs")
        head = p[:min(i, s) if s >= 0 else i]
        m = re.search(rb"/lenIV\s+(-?\d+)", head); self.lenIV = int(m.group(1)) if m else 4
        self.privkeys = {m.group(1).decode(): m.group(2).strip() for m in re.finditer(rb"/(\w+)\s*(\[[^\]]*\]|-?[\d.]+|true|false)", head)}
        self.subrs, self.subrorder = {}, []
        def tok(pos):
            m = TOK.match(p, pos); return m.group(1), m.end()
        if s >= 0:
            n, pos = tok(s+6); self.nsubrs = int(n)
            t, pos = tok(pos)
            if t != b"array": raise Bad("Subrs: %r" % t)
            while True:
                t, q = tok(pos)
                if t != b"dup": break
                k, q = tok(q); l, q = tok(q); rd, q = tok(q)
                k, l = int(k), int(l); q += 1
                if not 0 <= k < self.nsubrs: raise Bad("rangecheck: subr %d of %d" % (k, self.nsubrs))
                if k in self.subrs: raise Bad("subr %d twice" % k)
                self.subrs[k] = self._cs(p[q:q+l]); q += l
                t, q = tok(q)
                if t == b"noaccess": t, q = tok(q)
                pos = q
        else: self.nsubrs = 0
        n, pos = tok(i+12); self.nchars = int(n)
        while True:
            t, pos = tok(pos)
            if t == b"begin": break
        self.chars = {}
        while True:
            t, pos = tok(pos)
            if t == b"end": break
            if t[:1] != b"/": raise Bad("CharStrings: %r" % t[:20])
            l, pos = tok(pos); rd, pos = tok(pos); l = int(l); pos += 1
            name = t[1:].decode("latin1")
            if name not in self.chars: self.chars[name] = self._cs(p[pos:pos+l])
            pos += l
            t, pos = tok(pos)
            if t == b"noaccess": t, pos = tok(pos)
        if len(self.chars) > self.nchars: raise Bad("dictfull: %d glyphs in a dict of %d" % (len(self.chars), self.nchars))
        if ".notdef" not in self.chars: raise Bad("no .notdef")
        self.rest = p[pos:]

    def _cs(self, b):
        return bytes(b) if self.lenIV < 0 else decrypt(b, 4330, self.lenIV)

    def glyph(self, name): return Glyph(self, name)


class Glyph:
    def __init__(self, font, name, seac=True):
        self.font = font
        self.contours, self.cur = [], None    # a contour: [start, [segments], closed]; segment = (p,) or (c1, c2, p)
        self.hints, self.used, self.seen = [], set(), set()
        self.wx = self.wy = self.sbx = self.sby = None
        self.x = self.y = 0
        self.st, self.ps, self.flex = [], [], None
        self.ended = False
        self.seac = None
        self.steps = 0
        if name not in font.chars: raise Bad("no glyph %s in the font %s" % (name, font.name))
        self.run(font.chars[name], 0)
        if not self.ended: raise Bad("no endchar in %s" % name)
        self.contours = [c for c in self.contours if c[1] or c[2]]

    def to(self, x, y): self.x, self.y = x, y
    def move(self, dx, dy):
        self.to(self.x+dx, self.y+dy)
        if self.flex is not None: return
        self.contours.append([(self.x, self.y), [], False]); self.cur = self.contours[-1]
    def seg(self, *pts):
        if self.cur is None or self.cur[2]: raise Bad("no current point")
        self.cur[1].append(tuple(pts)); self.to(*pts[-1])
    def line(self, dx, dy): self.seg((self.x+dx, self.y+dy))
    def curve(self, a, b, c, d, e, f):
        p = (self.x+a, self.y+b); q = (p[0]+c, p[1]+d); self.seg(p, q, (q[0]+e, q[1]+f))

    def run(self, code, depth):
        if depth > 10: raise Bad("subrs nested too deeply")
        i, n, S = 0, len(code), self.st
        while i < n:
            self.steps += 1
            if self.steps > 200000: raise Bad("endless")
            b = code[i]; i += 1
            if b >= 32:
                if b <= 246: v = b-139
                elif b <= 250: v = (b-247)*256+code[i]+108; i += 1
                elif b <= 254: v = -(b-251)*256-code[i]-108; i += 1
                else: v = int.from_bytes(code[i:i+4], "big", signed=True); i += 4
                S.append(v); continue
            if b == 12: op = (12, code[i]); i += 1
            else: op = b
            self.seen.add(op)
            def args(k):
                if len(S) < k: raise Bad("stack underflow at %s" % (op,))
                a = S[:k]; S.clear(); return a
            if op == 13: self.sbx, self.wx = args(2); self.sby = self.wy = 0; self.to(self.sbx, 0)
            elif op == (12, 7): self.sbx, self.sby, self.wx, self.wy = args(4); self.to(self.sbx, self.sby)
            elif op == 14: self.ended = True; return True
            elif op == 9:
                S.clear()
                if self.cur is not None and not self.cur[2]: self.cur[2] = True
            elif op == 6: self.line(args(1)[0], 0)
            elif op == 7: self.line(0, args(1)[0])
            elif op == 5: self.line(*args(2))
            elif op == 22: self.move(args(1)[0], 0)
            elif op == 4: self.move(0, args(1)[0])
            elif op == 21: self.move(*args(2))
            elif op == 8: self.curve(*args(6))
            elif op == 31: a = args(4); self.curve(a[0], 0, a[1], a[2], 0, a[3])
            elif op == 30: a = args(4); self.curve(0, a[0], a[1], a[2], a[3], 0)
            elif op in (1, 3): self.hints.append((op,)+tuple(args(2)))
            elif op in ((12, 1), (12, 2)): self.hints.append((op,)+tuple(args(6)))
            elif op == (12, 0): S.clear()
            elif op == (12, 12):
                d = S.pop(); S.append(S.pop()/d)
            elif op == 10:
                k = S.pop()
                if k not in self.font.subrs: raise Bad("subr %s missing" % k)
                self.used.add(k)
                if self.run(self.font.subrs[k], depth+1): return True
            elif op == 11: return False
            elif op == (12, 16):
                o, k = S.pop(), S.pop()
                a = [S.pop() for _ in range(k)]     # a[0] was on top
                if o == 1: self.flex = []
                elif o == 2: self.flex.append((self.x, self.y))
                elif o == 0:
                    f = self.flex
                    if f is None or len(f) != 7: raise Bad("flex with %s points" % (f and len(f)))
                    self.flex = None
                    start = (self.cur[1][-1][-1] if self.cur[1] else self.cur[0]) if self.cur else None
                    self.seg(f[1], f[2], f[3]); self.seg(f[4], f[5], f[6])
                    self.ps = [a[0], a[1]]         # y on top after pop pop: first pop gives x
                    self.ps = [a[0], a[1]]
                elif o == 3: self.ps = [a[0]]; self.hints.append("replace")
                else: self.ps = a[::-1][::-1]
                self.lasto = o
            elif op == (12, 17):
                if not self.ps: raise Bad("pop from an empty PostScript stack")
                S.append(self.ps.pop())
            elif op == (12, 33): self.to(*args(2))
            elif op == (12, 6):
                asb, adx, ady, bc, ac = args(5)
                w = (self.wx, self.wy, self.sbx, self.sby)
                B, A = STANDARD[int(bc)], STANDARD[int(ac)]
                self.seac = (B, A)
                gb, ga = Glyph(self.font, B), Glyph(self.font, A)
                dx, dy = w[2]+adx-asb, w[3]+ady
                sh = lambda p: (p[0]+dx, p[1]+dy)
                # the base's outline starts at the side bearing given for the composite
                ox, oy = w[2]-gb.sbx, w[3]-gb.sby
                self.baseshift = (ox, oy)
                self.contours += gb.contours+[[sh(c[0]), [tuple(map(sh, s)) for s in c[1]], c[2]] for c in ga.contours]
                self.used |= gb.used | ga.used; self.hints += [("seac",)]+gb.hints+ga.hints
                self.seen |= gb.seen | ga.seen
                self.ended = True; return True
            else: raise Bad("unknown operator %s" % (op,))
        return False

    def key(self): return (self.wx, self.wy, self.sbx, self.sby, self.contours, self.hints)
