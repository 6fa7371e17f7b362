"""Independent interpreters for the PostScript, PDF and SVG that pyx writes.

Each yields Page objects with a list of paint events in page coordinates (pt, y up).
"""
import re, zlib, math, struct, binascii, base64, io
from geo import Builder, Sub, Line, Curve, IDENT, mul, ap, inv


class Malformed(Exception):
    pass


class GS:
    def __init__(self):
        self.ctm = IDENT
        self.fill = ("gray", (0.0,))
        self.stroke = ("gray", (0.0,))
        self.lw = 1.0
        self.cap = 0
        self.join = 0
        self.miter = 10.0
        self.dash = ((), 0.0)
        self.clips = ()
        self.falpha = self.salpha = 1.0
        self.font = None
        self.fontsize = 0.0
        self.path = Builder()          # in page coordinates
        self.overprint = None
    def copy(self):
        g = GS.__new__(GS)
        g.__dict__.update(self.__dict__)
        g.path = Builder()
        g.path.subs = [Sub(s.start, list(s.segs), s.closed) for s in self.path.subs]
        g.path.cur, g.path.open = self.path.cur, self.path.open
        return g


ADVANCE = None    # function(font name, font dictionary, codes): width of the shown string in units of the font size, or None


class Ev:
    "a paint event"
    def __init__(self, op, gs, subs=(), **kw):
        self.op = op
        self.subs = list(subs)
        self.color = gs.stroke if op == "stroke" else gs.fill
        self.alpha = gs.salpha if op == "stroke" else gs.falpha
        self.ctm, self.lw, self.cap, self.join, self.miter, self.dash = gs.ctm, gs.lw, gs.cap, gs.join, gs.miter, gs.dash
        self.clips = gs.clips
        self.rule = "nonzero"
        self.__dict__.update(kw)
    def __repr__(self):
        s = "%s color=%s" % (self.op, self.color)
        if self.alpha != 1: s += " alpha=%g" % self.alpha
        if self.op == "stroke":
            s += " lw=%g cap=%s join=%s miter=%g dash=%s" % (self.lw, self.cap, self.join, self.miter, self.dash)
        if self.op == "fill": s += " rule=%s" % self.rule
        if self.op == "text": s += " %s %s" % (self.font, self.codes)
        s += " clips=%d" % len(self.clips)
        if self.subs: s += " path=" + "|".join("%s%s" % ([tuple(round(v, 3) for v in x.start)] + [tuple(round(v, 3) for v in g.end()) for g in x.segs], "Z" if x.closed else "") for x in self.subs)[:300]
        return s


class Page:
    def __init__(self):
        self.events = []
        self.box = None
        self.info = {}


# ---------------------------------------------------------------- PostScript

class Name(str):
    pass       # executable name


class Lit(str):
    pass       # literal name


class Proc(list):
    pass


class Mark:
    pass


MARK = Mark()
_delims = b"()<>[]{}/%"
_ws = b" \t\r\n\f\0"
_num = re.compile(rb"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


class Quit(Exception):
    pass


def a85decode(data):
    out = bytearray(); grp = []
    for c in data:
        if c in _ws: continue
        if c == ord("z"):
            if grp: raise Malformed("z inside ascii85 group")
            out += b"\0\0\0\0"; continue
        if not 33 <= c <= 117: raise Malformed("bad ascii85 byte %d" % c)
        grp.append(c-33)
        if len(grp) == 5:
            v = 0
            for g in grp: v = v*85+g
            if v > 0xffffffff: raise Malformed("ascii85 overflow")
            out += struct.pack(">I", v); grp = []
    if grp:
        if len(grp) == 1: raise Malformed("ascii85 odd tail")
        n = len(grp)
        grp += [84]*(5-n)
        v = 0
        for g in grp: v = v*85+g
        out += struct.pack(">I", v & 0xffffffff)[:n-1]
    return bytes(out)


class ReadOnly(dict):
    def __setitem__(self, k, v): raise Malformed("invalidaccess: store of %s into a read-only dictionary" % k)


class PS:
    """A PostScript interpreter sufficient for pyx output and simple EPS files."""
    MAXOPS = 3000000

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.st = []
        self.gs = GS()
        self.gstack = []
        self.fonts = {}
        self.usedfonts = set()
        self.comments = []
        self.pages = []
        self.page = Page()
        self.sys = {}
        self.user = {}
        self.dicts = [self.sys, self.user]
        self.nops = 0
        self.resources = {}
        for n in dir(self):
            if n.startswith("op_"):
                self.sys[n[3:]] = getattr(self, n)
        self.sys.update({"true": True, "false": False, "null": None, "userdict": self.user, "systemdict": self.sys,
                         "languagelevel": 3, ".setshapealpha": self._setalpha, ".setopacityalpha": self._setalpha,
                         "[": self._mark, "]": self._array, "<<": self._mark, ">>": self._dict, "=": self.op_pop, "==": self.op_pop,
                         "FontDirectory": self.fonts, "StandardEncoding": ["StandardEncoding"], "errordict": {}, "statusdict": {}})
        self.nsaves = 0
        self.maxstack = 0

    # -- scanner
    def skipws(self):
        d = self.data; n = len(d)
        while self.pos < n:
            c = d[self.pos]
            if c in _ws:
                self.pos += 1
            elif c == 37:
                e = self.pos
                while e < n and d[e] not in b"\r\n": e += 1
                if self.pos == 0 or d[self.pos-1] in b"\r\n":
                    self.comments.append((self.pos, d[self.pos:e].decode("latin1"), len(self.pages)))
                self.pos = e
            else:
                return True
        return False

    def token(self):
        if not self.skipws(): return None
        d = self.data; n = len(d); p = self.pos; c = d[p]
        if c == 40:
            depth = 0; out = bytearray(); p += 1
            while True:
                if p >= n: raise Malformed("unterminated string")
                c = d[p]
                if c == 92:
                    p += 1; c = d[p]
                    if c in b"nrtbf": out.append({110: 10, 114: 13, 116: 9, 98: 8, 102: 12}[c])
                    elif 48 <= c <= 55:
                        v = 0; k = 0
                        while k < 3 and 48 <= d[p] <= 55:
                            v = v*8 + d[p]-48; p += 1; k += 1
                        p -= 1
                        out.append(v & 255)
                    elif c in b"\r\n":
                        if c == 13 and d[p+1] == 10: p += 1
                    else: out.append(c)
                elif c == 40: depth += 1; out.append(c)
                elif c == 41:
                    if depth == 0: p += 1; break
                    depth -= 1; out.append(c)
                else: out.append(c)
                p += 1
            self.pos = p
            return bytes(out)
        if c == 60:
            if d[p+1] == 60: self.pos += 2; return Name("<<")
            if d[p+1] == 126:
                e = d.find(b"~>", p+2)
                if e < 0: raise Malformed("unterminated ascii85 string")
                self.pos = e+2
                return a85decode(d[p+2:e])
            e = d.find(b">", p)
            if e < 0: raise Malformed("unterminated hex string")
            self.pos = e+1
            h = bytes(x for x in d[p+1:e] if x not in _ws)
            return binascii.a2b_hex(h + (b"0" if len(h) % 2 else b""))
        if c == 62:
            if d[p+1:p+2] != b">": raise Malformed("stray >")
            self.pos += 2; return Name(">>")
        if c in b"[]{}":
            self.pos += 1; return Name(chr(c))
        if c == 41: raise Malformed("stray )")
        lit = False
        if c == 47:
            lit = True; p += 1
            if p < n and d[p] == 47: p += 1
        e = p
        while e < n and d[e] not in _ws and d[e] not in _delims: e += 1
        w = d[p:e]
        self.pos = e
        if lit: return Lit(w.decode("latin1"))
        if _num.match(w):
            return float(w) if (b"." in w or b"e" in w.lower()) else int(w)
        m = re.match(rb"(\d+)#([0-9a-zA-Z]+)$", w)
        if m: return int(m.group(2), int(m.group(1)))
        if not w: raise Malformed("empty token at %d" % self.pos)
        return Name(w.decode("latin1"))

    def proc(self):
        out = Proc()
        while True:
            t = self.token()
            if t is None: raise Malformed("unterminated procedure")
            if type(t) is Name and t == "{": out.append(self.proc())
            elif type(t) is Name and t == "}": return out
            else: out.append(t)

    # -- execution
    def run(self):
        while True:
            t = self.token()
            if t is None: break
            if type(t) is Name and t == "{":
                self.st.append(self.proc())
            else:
                try:
                    self.exec(t)
                except Quit:
                    break
        return self

    def exec(self, t):
        self.nops += 1
        if self.nops > self.MAXOPS: raise Malformed("PostScript program does not terminate")
        if type(t) is Name:
            for d in reversed(self.dicts):
                if t in d:
                    v = d[t]
                    break
            else:
                raise Malformed("undefined operator %r" % str(t))
            if isinstance(v, Proc): self.call(v)
            elif callable(v): v()
            elif isinstance(v, Name): self.exec(v)
            else: self.st.append(v)
        else:
            self.st.append(t)
        if len(self.st) > self.maxstack: self.maxstack = len(self.st)

    def call(self, p):
        for t in list(p):
            if isinstance(t, Proc): self.st.append(t)
            else: self.exec(t)

    def pop(self, n=None):
        if n is None:
            if not self.st: raise Malformed("stackunderflow")
            return self.st.pop()
        if len(self.st) < n: raise Malformed("stackunderflow")
        r = self.st[len(self.st)-n:]
        del self.st[len(self.st)-n:]
        return r
    def num(self, n=None):
        if n is None:
            v = self.pop()
            if isinstance(v, bool) or not isinstance(v, (int, float)): raise Malformed("typecheck: number expected, got %r" % (v,))
            return v
        return [x for x in reversed([self.num() for i in range(n)])]

    # stack and arithmetic
    def op_pop(self): self.pop()
    def op_dup(self): v = self.pop(); self.st += [v, v]
    def op_exch(self): a, b = self.pop(2); self.st += [b, a]
    def op_index(self): n = self.num(); self.st.append(self.st[-1-n])
    def op_copy(self):
        n = self.pop()
        if isinstance(n, int):
            if n: self.st += self.st[-n:]
        else:
            src = self.pop()
            if isinstance(n, dict): n.update(src)
            else: n[:len(src)] = src
            self.st.append(n)
    def op_roll(self):
        n, j = self.num(2)
        x = self.pop(n)
        if n:
            j %= n
            x = x[-j:] + x[:-j] if j else x
        self.st += x
    def op_clear(self): self.st.clear()
    def op_count(self): self.st.append(len(self.st))
    def op_mark(self): self._mark()
    def _mark(self): self.st.append(MARK)
    def op_cleartomark(self):
        while self.pop() is not MARK: pass
    def op_counttomark(self):
        n = 0
        while self.st[-1-n] is not MARK: n += 1
        self.st.append(n)
    def _array(self):
        out = []
        while True:
            v = self.pop()
            if v is MARK: break
            out.append(v)
        self.st.append(out[::-1])
    def _dict(self):
        self._array()
        a = self.pop()
        if len(a) % 2: raise Malformed("odd dict")
        self.st.append({a[i]: a[i+1] for i in range(0, len(a), 2)})
    def op_add(self): a, b = self.num(2); self.st.append(a+b)
    def op_sub(self): a, b = self.num(2); self.st.append(a-b)
    def op_mul(self): a, b = self.num(2); self.st.append(a*b)
    def op_div(self): a, b = self.num(2); self.st.append(a/b)
    def op_idiv(self): a, b = self.num(2); self.st.append(int(a/b))
    def op_neg(self): self.st.append(-self.num())
    def op_abs(self): self.st.append(abs(self.num()))
    def op_round(self): self.st.append(math.floor(self.num()+0.5))
    def op_cvi(self): self.st.append(int(self.num()))
    def op_eq(self): a, b = self.pop(2); self.st.append(self._norm(a) == self._norm(b))
    def op_ne(self): a, b = self.pop(2); self.st.append(self._norm(a) != self._norm(b))
    def _norm(self, a): return str(a) if isinstance(a, str) else a
    def op_gt(self): a, b = self.num(2); self.st.append(a > b)
    def op_lt(self): a, b = self.num(2); self.st.append(a < b)
    def op_ge(self): a, b = self.num(2); self.st.append(a >= b)
    def op_le(self): a, b = self.num(2); self.st.append(a <= b)
    def op_and(self): a, b = self.pop(2); self.st.append(a & b)
    def op_or(self): a, b = self.pop(2); self.st.append(a | b)
    def op_not(self): a = self.pop(); self.st.append(not a)
    def op_if(self):
        c, p = self.pop(2)
        if c: self.call(p)
    def op_ifelse(self):
        c, p, q = self.pop(3)
        self.call(p if c else q)
    def op_for(self):
        i, s, l, p = self.pop(4)
        while (i <= l) if s > 0 else (i >= l):
            self.st.append(i); self.call(p); i += s
    def op_repeat(self):
        n, p = self.pop(2)
        for i in range(n): self.call(p)
    def op_forall(self):
        o, p = self.pop(2)
        if isinstance(o, dict):
            for k, v in list(o.items()):
                self.st += [k, v]; self.call(p)
        else:
            for v in list(o):
                self.st.append(v); self.call(p)
    def op_exec(self):
        p = self.pop()
        if isinstance(p, Proc): self.call(p)
        else: self.exec(Name(p) if isinstance(p, str) else p)
    def op_stopped(self):
        p = self.pop(); self.call(p); self.st.append(False)
    # dicts
    def op_dict(self): self.num(); self.st.append({})
    def op_begin(self):
        d = self.pop()
        if not isinstance(d, dict): raise Malformed("begin without dict")
        self.dicts.append(d)
    def op_end(self):
        if len(self.dicts) <= 2: raise Malformed("dictstackunderflow")
        self.dicts.pop()
    def op_countdictstack(self): self.st.append(len(self.dicts))
    def op_currentdict(self): self.st.append(self.dicts[-1])
    def op_def(self): k, v = self.pop(2); self.dicts[-1][self._key(k)] = v
    def op_store(self):
        k, v = self.pop(2); k = self._key(k)
        for d in reversed(self.dicts):
            if k in d: d[k] = v; return
        self.dicts[-1][k] = v
    def _key(self, k): return Lit(k) if isinstance(k, str) else k
    def op_load(self):
        k = self.pop()
        for d in reversed(self.dicts):
            if k in d: self.st.append(d[k]); return
        raise Malformed("load of undefined %r" % str(k))
    def op_where(self):
        k = self.pop()
        for d in reversed(self.dicts):
            if k in d: self.st += [d, True]; return
        self.st.append(False)
    def op_known(self): d, k = self.pop(2); self.st.append(k in d)
    def op_get(self):
        a, i = self.pop(2)
        self.st.append(a[i])
    def op_put(self):
        a, i, v = self.pop(3); a[i] = v
    def op_length(self): self.st.append(len(self.pop()))
    def op_maxlength(self): self.st.append(len(self.pop()))
    def op_array(self): self.st.append([None]*self.num())
    def op_string(self): self.st.append(bytearray(self.num()))
    def op_bind(self): pass
    def op_readonly(self): pass
    def op_executeonly(self): pass
    def op_noaccess(self): pass
    def op_cvx(self):
        v = self.pop(); self.st.append(Name(v) if isinstance(v, str) else Proc(v) if isinstance(v, list) else v)
    def op_cvn(self): self.st.append(Lit(self.pop().decode("latin1")))
    def op_load_(self): pass
    def op_astore(self):
        a = self.pop(); a[:] = self.pop(len(a)); self.st.append(a)
    def op_aload(self):
        a = self.pop(); self.st += list(a) + [a]
    def op_save(self):
        self.nsaves += 1
        self.gstack.append(("save", self.gs)); self.gs = self.gs.copy()
        vm = {id(d): (d, dict(d)) for d in [self.user] + self.dicts if not isinstance(d, ReadOnly) and d is not self.sys}
        self.st.append(("SAVE", len(self.gstack), list(vm.values())))
    def op_restore(self):
        s = self.pop()
        if not (isinstance(s, tuple) and s[0] == "SAVE"): raise Malformed("restore without save")
        if len(self.gstack) < s[1]: raise Malformed("invalidrestore")
        while len(self.gstack) >= s[1]: self.gs = self.gstack.pop()[1]
        for d, old in s[2]: d.clear(); d.update(old)
    # graphics state
    def op_gsave(self): self.gstack.append(("gsave", self.gs)); self.gs = self.gs.copy()
    def op_grestore(self):
        if not self.gstack or self.gstack[-1][0] != "gsave": raise Malformed("grestore without gsave")
        self.gs = self.gstack.pop()[1]
    def op_setlinewidth(self): self.gs.lw = float(self.num())
    def op_setlinecap(self): self.gs.cap = self._enum(3)
    def op_setlinejoin(self): self.gs.join = self._enum(3)
    def _enum(self, n):
        v = self.num()
        if v not in range(n): raise Malformed("rangecheck %r" % v)
        return v
    def op_setmiterlimit(self):
        v = self.num()
        if v < 1: raise Malformed("rangecheck miterlimit")
        self.gs.miter = float(v)
    def op_setdash(self):
        a, o = self.pop(2)
        if not isinstance(a, list): raise Malformed("typecheck setdash")
        if any(x < 0 for x in a) or (a and not any(a)): raise Malformed("rangecheck setdash %r" % a)
        self.gs.dash = (tuple(float(x) for x in a), float(o))
    def _color(self, sp, n):
        c = tuple(float(x) for x in self.num(n))
        if any(not 0 <= x <= 1 for x in c): raise Malformed("color component out of range %r" % (c,))
        self.gs.fill = self.gs.stroke = (sp, c)
    def op_setgray(self): self._color("gray", 1)
    def op_setrgbcolor(self): self._color("rgb", 3)
    def op_setcmykcolor(self): self._color("cmyk", 4)
    def op_sethsbcolor(self): self._color("hsb", 3)
    def op_setcolorspace(self):
        v = self.pop()
        self.gs.space = v
    def op_setcolor(self): raise Malformed("setcolor unsupported")
    def op_setpattern(self):
        p = self.pop(); self.gs.fill = self.gs.stroke = ("pattern", p)
    def op_makepattern(self):
        d, m = self.pop(2)
        for k in ("PatternType", "PaintType", "TilingType", "BBox", "XStep", "YStep", "PaintProc"):
            if k not in d: raise Malformed("pattern without /%s" % k)
        if not d["XStep"] or not d["YStep"]: raise Malformed("pattern with zero step")
        if len(d["BBox"]) != 4: raise Malformed("pattern BBox")
        # paint one cell; the dictionary is read-only
        page, gs, n, nst, nd = self.page, self.gs, len(self.gstack), len(self.st), len(self.dicts)
        self.page = Page(); self.gs = GS()
        ro = ReadOnly(d)
        self.st.append(ro)
        try:
            self.call(d["PaintProc"])
        except (KeyError, IndexError, TypeError) as e:
            raise Malformed("PaintProc: %r" % e)
        if len(self.gstack) != n or len(self.st) != nst or len(self.dicts) != nd: raise Malformed("PaintProc leaves the stacks unbalanced")
        cell = self.page.events
        self.page, self.gs = page, gs
        self.st.append(("PATTERN", d, tuple(m), cell))
    def op_matrix(self): self.st.append(list(IDENT))
    def op_currentmatrix(self): self.pop(); self.st.append(list(self.gs.ctm))
    def op_setmatrix(self): self.gs.ctm = tuple(self.pop())
    def _setalpha(self): self.gs.falpha = self.gs.salpha = float(self.num())
    def op_setstrokeadjust(self): self.pop()
    def op_setoverprint(self): self.pop()
    def op_setflat(self): self.pop()
    def op_concat(self):
        m = self.pop()
        if len(m) != 6: raise Malformed("concat matrix")
        self.gs.ctm = mul(tuple(map(float, m)), self.gs.ctm)
    def op_translate(self): x, y = self.num(2); self.gs.ctm = mul((1, 0, 0, 1, x, y), self.gs.ctm)
    def op_scale(self): x, y = self.num(2); self.gs.ctm = mul((x, 0, 0, y, 0, 0), self.gs.ctm)
    def op_rotate(self):
        a = math.radians(self.num()); c, s = math.cos(a), math.sin(a)
        self.gs.ctm = mul((c, s, -s, c, 0, 0), self.gs.ctm)
    # paths
    def _p(self, x, y): return ap(self.gs.ctm, (x, y))
    def _b(self, f, *pts):
        try:
            f(*[v for p in pts for v in p])
        except ValueError as e:
            raise Malformed(str(e))
    def op_newpath(self): self.gs.path = Builder()
    def op_moveto(self): self._b(self.gs.path.moveto, self._p(*self.num(2)))
    def op_lineto(self): self._b(self.gs.path.lineto, self._p(*self.num(2)))
    def op_curveto(self):
        c = self.num(6); self._b(self.gs.path.curveto, self._p(*c[0:2]), self._p(*c[2:4]), self._p(*c[4:6]))
    def _r(self, dx, dy):
        c = self.gs.path.cur
        if c is None: raise Malformed("nocurrentpoint")
        m = self.gs.ctm
        return (c[0]+m[0]*dx+m[2]*dy, c[1]+m[1]*dx+m[3]*dy)
    def op_rmoveto(self): self._b(self.gs.path.moveto, self._r(*self.num(2)))
    def op_rlineto(self): self._b(self.gs.path.lineto, self._r(*self.num(2)))
    def op_rcurveto(self):
        c = self.num(6); self._b(self.gs.path.curveto, self._r(*c[0:2]), self._r(*c[2:4]), self._r(*c[4:6]))
    def _arc(self, kind, args):
        m = self.gs.ctm
        b = Builder()
        g = self.gs.path
        if g.cur is not None:
            b.moveto(*ap(inv(m), g.cur))
        try:
            if kind == "arct": b.arct(*args)
            else: b.arc(*args, negative=(kind == "arcn"))
        except ValueError as e:
            raise Malformed(str(e))
        segs = [s.tr(m) for s in b.subs[-1].segs]
        if g.cur is None:
            g.moveto(*ap(m, b.subs[-1].start))
        sub = g._need()
        sub.segs += segs
        g.cur = segs[-1].end() if segs else g.cur
    def op_arc(self): self._arc("arc", self.num(5))
    def op_arcn(self): self._arc("arcn", self.num(5))
    def op_arct(self): self._arc("arct", self.num(5))
    def op_arcto(self): self._arc("arct", self.num(5)); self.st += [0, 0, 0, 0]
    def op_closepath(self): self.gs.path.closepath()
    def op_currentpoint(self):
        if self.gs.path.cur is None: raise Malformed("nocurrentpoint")
        self.st += list(ap(inv(self.gs.ctm), self.gs.path.cur))
    def _paint(self, op, **kw):
        self.page.events.append(Ev(op, self.gs, self.gs.path.subs, **kw))
        self.gs.path = Builder()
    def op_stroke(self): self._paint("stroke")
    def op_fill(self): self._paint("fill", rule="nonzero")
    def op_eofill(self): self._paint("fill", rule="evenodd")
    def _clip(self, rule):
        self.gs.clips = self.gs.clips + ((tuple(self.gs.path.subs), rule),)
    def op_clip(self): self._clip("nonzero")
    def op_eoclip(self): self._clip("evenodd")
    def _rect(self):
        x, y, w, h = self.num(4)
        b = Builder()
        b.moveto(*self._p(x, y)); b.lineto(*self._p(x+w, y)); b.lineto(*self._p(x+w, y+h)); b.lineto(*self._p(x, y+h)); b.closepath()
        return b
    def op_rectclip(self):
        b = self._rect()
        self.gs.clips = self.gs.clips + ((tuple(b.subs), "nonzero"),)
        self.gs.path = Builder()
    def op_rectfill(self):
        b = self._rect(); self.page.events.append(Ev("fill", self.gs, b.subs))
    def op_rectstroke(self):
        b = self._rect(); self.page.events.append(Ev("stroke", self.gs, b.subs))
    def op_showpage(self):
        self.pages.append(self.page); self.page = Page()
        # initgraphics-like reset of the page; graphics state otherwise kept
        self.gs.path = Builder()
    def op_initgraphics(self): pass
    # fonts and text
    def op_findfont(self):
        n = str(self.pop())
        if n not in self.fonts: self.fonts[n] = {"FontName": Lit(n), "builtin": True, "Encoding": []}
        self.st.append(self.fonts[n])
    def op_definefont(self):
        k, d = self.pop(2); self.fonts[str(k)] = d; d.setdefault("FID", 1); self.st.append(d)
    def op_scalefont(self):
        d, s = self.pop(2); d = dict(d); d["_scale"] = float(s)*d.get("_scale", 1.0); self.st.append(d)
    def op_makefont(self):
        d, m = self.pop(2); d = dict(d); d["_m"] = tuple(m); self.st.append(d)
    def op_setfont(self):
        d = self.pop(); self.gs.font = d; self.gs.fontsize = d.get("_scale", 1.0)
    def op_selectfont(self):
        n, s = self.pop(2); n = str(n)
        if n not in self.fonts: raise Malformed("font %s used but not defined in the file" % n)
        self.gs.font = self.fonts[n]; self.gs.fontname = n
        if isinstance(s, list): self.gs.fontsize = s
        else: self.gs.fontsize = float(s)
        self.usedfonts.add(n)
    def op_show(self):
        s = self.pop()
        if self.gs.font is None: raise Malformed("invalidfont")
        if self.gs.path.cur is None: raise Malformed("nocurrentpoint")
        self.page.events.append(Ev("text", self.gs, (), font=getattr(self.gs, "fontname", None), size=self.gs.fontsize,
                                   codes=list(s), at=self.gs.path.cur, fontdict=self.gs.font))
        # without widths the position after show is unknown
        cur, self.gs.path = self.gs.path.cur, Builder()
        w = ADVANCE and ADVANCE(getattr(self.gs, "fontname", None), self.gs.font, list(s))
        if w is not None and not isinstance(self.gs.fontsize, list):
            m = self.gs.ctm
            self.gs.path.moveto(cur[0]+m[0]*w*self.gs.fontsize, cur[1]+m[1]*w*self.gs.fontsize)
    # files, images
    def op_currentfile(self): self.st.append(("FILE", None, ()))
    def op_filter(self):
        src, name = self.pop(2)
        if isinstance(src, dict):     # filter parameters
            prm = src; src = self.pop()
        if isinstance(src, tuple) and src[0] == "FILE": self.st.append(("FILE", None, src[2] + (str(name),)))
        else: self.st.append(("DATA", src, (src[2] if isinstance(src, tuple) else ()) + (str(name),)))
    def op_eexec(self):
        self.pop()
        m = re.compile(rb"cleartomark\s").search(self.data, self.pos)
        if not m: raise Malformed("eexec section without cleartomark")
        end = m.end()
        raw = self.data[self.pos:end]
        self.page.info.setdefault("eexec", [])
        f = self.dicts[-1] if "FontName" in self.dicts[-1] else None
        # the clear text part of a Type 1 font ends with 'currentdict end': the font dict was pushed
        d = self.st[-1] if self.st and isinstance(self.st[-1], dict) else f
        if d is None: raise Malformed("eexec outside a font")
        while self.st and self.st[-1] is d: self.pop()     # (the encrypted part consumes what it needs)
        d["_eexec"] = raw
        self.fonts[str(d["FontName"])] = d
        self.pos = end
    def readdata(self, filters, need):
        "consume inline data from the current file through filters"
        d = self.data
        # one whitespace after the operator
        p = self.pos
        first = filters[0] if filters else None
        if first == "ASCIIHexDecode":
            e = d.find(b">", p)
            if e < 0: raise Malformed("hex data without EOD")
            raw = d[p:e]
            h = bytes(x for x in raw if x not in _ws)
            out = binascii.a2b_hex(h + (b"0" if len(h) % 2 else b""))
            self.pos = e+1
        elif first == "ASCII85Decode":
            e = d.find(b"~>", p)
            if e < 0: raise Malformed("ascii85 data without EOD")
            out = a85decode(d[p:e])
            self.pos = e+2
        else:
            if d[p:p+1] in (b"\n", b" "): p += 1
            out = d[p:p+need]; self.pos = p+need
        return unfilter(out, filters[1:] if first in ("ASCIIHexDecode", "ASCII85Decode") else filters)
    def source(self, src, need):
        if isinstance(src, Proc):
            out = b""
            while len(out) < need:
                self.call(src); x = self.pop()
                if not len(x): break
                out += bytes(x)
            return out
        if isinstance(src, tuple):
            if src[0] == "FILE": return self.readdata(src[2], need)
            s = src[1]
            data = bytearray()
            if isinstance(s, Proc):
                self.st_before = len(self.st)
                k = 0
                while k < 100000:
                    try:
                        self.call(s)
                    except (IndexError, Malformed):
                        break
                    x = self.pop()
                    if not len(x): break
                    data += x; k += 1
                return unfilter(bytes(data), src[2])
            return unfilter(bytes(s), src[2])
        if isinstance(src, list):
            raise Malformed("array data source")
        return bytes(src)
    def op_image(self):
        d = self.pop()
        if not isinstance(d, dict): raise Malformed("image without dict")
        t = d["ImageType"]
        D = d["DataDict"] if t == 3 else d
        sp = getattr(self.gs, "space", None)
        n = 1 if isinstance(sp, list) else {"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}.get(sp)
        if n is None: raise Malformed("image in color space %r" % (sp,))
        if isinstance(sp, list):
            if sp[0] != "Indexed" or len(sp) != 4: raise Malformed("color space %r" % (sp,))
            if (sp[2]+1)*{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[sp[1]] != len(sp[3]): raise Malformed("Indexed hival %d for %d bytes of %s" % (sp[2], len(sp[3]), sp[1]))
        if len(D["Decode"]) != 2*n: raise Malformed("image Decode %r" % D["Decode"])
        if t == 3:
            if d["InterleaveType"] != 1: raise Malformed("InterleaveType")
            M = d["MaskDict"]
            if (M["Width"], M["Height"]) != (D["Width"], D["Height"]): raise Malformed("mask size")
            n += 1
        need = D["Width"]*D["Height"]*n
        src = D["DataSource"]
        data = self.source(src, need)
        if isinstance(src, tuple) and "DCTDecode" in src[2]: pass
        elif len(data) != need: raise Malformed("%d bytes of image data, %d needed" % (len(data), need))
        self.page.events.append(Ev("image", self.gs, (), dict=d, data=data, space=getattr(self.gs, "space", None)))
    def op_shfill(self):
        d = self.pop()
        data = self.source(d["DataSource"], 0)
        self.page.events.append(Ev("shading", self.gs, (), dict=d, data=data))
    def op_quit(self): raise Quit()
    def op_print(self): self.pop()
    def op_pstack(self): pass
    def op_flush(self): pass
    def op_setpagedevice(self): self.pop()


def unfilter(data, filters):
    for f in filters:
        if f == "FlateDecode":
            o = zlib.decompressobj()
            try:
                data = o.decompress(data) + o.flush()
            except zlib.error as e:
                raise Malformed("flate stream: %s" % e)
            if not o.eof: raise Malformed("truncated flate stream")
        elif f == "ASCIIHexDecode":
            h = bytes(x for x in data.split(b">")[0] if x not in _ws)
            data = binascii.a2b_hex(h + (b"0" if len(h) % 2 else b""))
        elif f == "ASCII85Decode":
            data = a85decode(data.split(b"~>")[0])
        elif f == "DCTDecode":
            pass
        else:
            raise Malformed("unknown filter %s" % f)
    return data


def read_ps(data):
    """Interpret a PS/EPS file; raises Malformed on anything a PostScript interpreter
    would reject and on unbalanced stacks."""
    ps = PS(data).run()
    if ps.st: raise Malformed("operand stack not empty at end: %r" % (ps.st[-3:],))
    if ps.gstack: raise Malformed("%d unmatched gsave/save at end" % len(ps.gstack))
    if len(ps.dicts) != 2: raise Malformed("dictionary stack not empty at end")
    if ps.page.events: raise Malformed("marks after the last showpage")
    return ps


# ---------------------------------------------------------------- PDF

class Ref(tuple):
    pass


class PDFName(str):
    pass


class PDFStream(dict):
    raw = b""


class PDF:
    def __init__(self, data):
        self.data = data
        self.objs = {}
        self.parse()

    def err(self, msg): raise Malformed("PDF: " + msg)

    def tok(self, p):
        "parse one object at p -> (value, newpos)"
        d = self.data
        p = self.ws(p)
        if p >= len(d): self.err("unexpected end")
        c = d[p:p+1]
        if d[p:p+2] == b"<<":
            p += 2; out = {}
            while True:
                p = self.ws(p)
                if d[p:p+2] == b">>": return out, p+2
                k, p = self.tok(p)
                if not isinstance(k, PDFName): self.err("dict key %r is no name" % (k,))
                v, p = self.tok(p)
                if k in out: self.err("duplicate key /%s" % k)
                out[k] = v
        if c == b"[":
            p += 1; out = []
            while True:
                p = self.ws(p)
                if d[p:p+1] == b"]": return out, p+1
                v, p = self.tok(p); out.append(v)
        if c == b"(":
            q = PS(d[p:p+70000]); s = q.token(); return s, p+q.pos
        if c == b"<":
            e = d.index(b">", p); h = bytes(x for x in d[p+1:e] if x not in _ws)
            return binascii.a2b_hex(h + (b"0" if len(h) % 2 else b"")), e+1
        if c == b"/":
            m = re.compile(rb"/[^\s()<>\[\]{}/%]*").match(d, p)
            n = re.sub(rb"#([0-9a-fA-F]{2})", lambda x: bytes([int(x.group(1), 16)]), m.group()[1:])
            return PDFName(n.decode("latin1")), m.end()
        m = re.compile(rb"(\d+)\s+(\d+)\s+R(?![a-zA-Z])").match(d, p)
        if m: return Ref((int(m.group(1)), int(m.group(2)))), m.end()
        m = re.compile(rb"[-+]?(\d+\.?\d*|\.\d+)(?![\w.])").match(d, p)
        if m:
            w = m.group()
            return (float(w) if b"." in w else int(w)), m.end()
        m = re.compile(rb"(true|false|null)\b").match(d, p)
        if m: return {b"true": True, b"false": False, b"null": None}[m.group()], m.end()
        self.err("bad token at %d: %r" % (p, d[p:p+30]))

    def ws(self, p):
        d = self.data
        while p < len(d):
            if d[p] in _ws: p += 1
            elif d[p] == 37:
                while p < len(d) and d[p] not in b"\r\n": p += 1
            else: break
        return p

    def parse(self):
        d = self.data
        if not re.match(rb"%PDF-1\.\d\r?\n", d): self.err("bad header %r" % d[:10])
        m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", d)
        if not m: self.err("no startxref/%%EOF at end")
        x = int(m.group(1))
        if d[x:x+4] != b"xref": self.err("startxref %d does not point to xref" % x)
        m2 = re.compile(rb"xref\s+(\d+) (\d+)\s*\n").match(d, x)
        if not m2: self.err("bad xref header")
        first, n = int(m2.group(1)), int(m2.group(2))
        if first != 0: self.err("xref does not start at object 0")
        p = m2.end()
        offs = {}
        for i in range(n):
            e = d[p:p+20]
            mm = re.match(rb"(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)$", e)
            if not mm: self.err("bad xref entry %d: %r" % (i, e))
            if i == 0:
                if mm.group(3) != b"f" or mm.group(2) != b"65535": self.err("xref entry 0 not the free list head")
            elif mm.group(3) == b"n": offs[i] = int(mm.group(1))
            else: self.err("free xref entry %d" % i)
            p += 20
        mt = re.compile(rb"\s*trailer\s*").match(d, p)
        if not mt: self.err("no trailer after xref")
        self.trailer, q = self.tok(mt.end())
        if self.trailer.get("Size") != n: self.err("trailer /Size %r but %d xref entries" % (self.trailer.get("Size"), n))
        ends = []
        for i, o in sorted(offs.items(), key=lambda t: t[1]):
            mo = re.compile(rb"(\d+) (\d+) obj\b").match(d, o)
            if not mo or int(mo.group(1)) != i or int(mo.group(2)) != 0: self.err("xref offset of object %d wrong: %r" % (i, d[o:o+20]))
            if ends and o < ends[-1]: self.err("object %d overlaps the previous one" % i)
            v, q = self.tok(mo.end())
            ms = re.compile(rb"\s*stream(\r\n|\n)").match(d, q)
            if ms:
                L = v.get("Length")
                if not isinstance(L, int): self.err("stream %d without direct Length" % i)
                raw = d[ms.end():ms.end()+L]
                me = re.compile(rb"\r?\n?endstream\s+endobj\b").match(d, ms.end()+L)
                if not me: self.err("stream %d: /Length %d does not reach endstream (%r)" % (i, L, d[ms.end()+L:ms.end()+L+30]))
                s = PDFStream(v); s.raw = raw
                v = s; q = me.end()
            else:
                me = re.compile(rb"\s*endobj\b").match(d, q)
                if not me: self.err("object %d without endobj: %r" % (i, d[q:q+40]))
                q = me.end()
            ends.append(q)
            self.objs[i] = v
        self.refs = set()
        self.walk(self.trailer)
        for v in list(self.objs.values()): self.walk(v)
        for r in self.refs:
            if r[0] not in self.objs: self.err("dangling reference %d %d R" % r)
        root = self.get(self.trailer["Root"])
        if root.get("Type") != "Catalog": self.err("Root is no Catalog")
        self.root = root
        pages = self.get(root["Pages"])
        if pages.get("Type") != "Pages": self.err("Pages node")
        if pages["Count"] != len(pages["Kids"]): self.err("page /Count %r but %d Kids" % (pages["Count"], len(pages["Kids"])))
        self.pages = []
        for k in pages["Kids"]:
            pg = self.get(k)
            if pg.get("Type") != "Page": self.err("Kid is no Page")
            if self.get(pg["Parent"]) is not pages: self.err("Page /Parent wrong")
            mb = pg["MediaBox"]
            if len(mb) != 4 or not all(isinstance(v, (int, float)) for v in mb) or mb[0] > mb[2] or mb[1] > mb[3]: self.err("MediaBox %r" % mb)
            self.pages.append(pg)
        # every object must be reachable
        seen = set(); todo = [self.trailer]
        while todo:
            v = todo.pop()
            if isinstance(v, Ref):
                if v[0] not in seen: seen.add(v[0]); todo.append(self.objs[v[0]])
            elif isinstance(v, dict): todo += list(v.values())
            elif isinstance(v, list): todo += v
        self.unreachable = set(self.objs) - seen

    def walk(self, v):
        if isinstance(v, Ref): self.refs.add(v)
        elif isinstance(v, dict):
            for x in v.values(): self.walk(x)
        elif isinstance(v, list):
            for x in v: self.walk(x)

    def get(self, v):
        while isinstance(v, Ref): v = self.objs[v[0]]
        return v

    def stream(self, s):
        f = s.get("Filter")
        fl = [] if f is None else [f] if isinstance(f, str) else f
        return unfilter(s.raw, fl)

    def page(self, i):
        pg = self.pages[i]
        P = Page()
        P.box = tuple(float(v) for v in pg["MediaBox"])
        P.info = pg
        con = pg["Contents"]
        if isinstance(con, list): data = b"\n".join(self.stream(self.get(c)) for c in con)
        else: data = self.stream(self.get(con))
        self.content(data, self.get(pg.get("Resources", {})), GS(), P.events)
        return P

    def content(self, data, res, gs, events, pattern=False):
        lex = PS(data)
        lex.fonts = None
        st = []
        stack = []
        path = Builder()
        pendclip = None
        intext = False
        tm = None
        nop = 0
        ctm0 = gs.ctm

        def need(n):
            if len(st) != n: self.err("operator %s with operands %r" % (t, st))
            return st
        def resource(cat, n):
            c = self.get(res.get(cat))
            if c is None or n not in c: self.err("resource /%s /%s missing" % (cat, n))
            return self.get(c[n])
        def col(sp, n):
            v = tuple(float(x) for x in need(n))
            if any(not 0 <= x <= 1 for x in v): self.err("color out of range %r" % (v,))
            return (sp, v)
        def P_(x, y): return ap(gs.ctm, (x, y))
        while True:
            t = lex.token()
            if t is None: break
            if type(t) is not Name:
                st.append(t); continue
            t = str(t)
            if t == "[":
                arr = []
                while True:
                    u = lex.token()
                    if u is None: self.err("unterminated array in content")
                    if type(u) is Name and u == "]": break
                    arr.append(u)
                st.append(arr); continue
            if t in ("true", "false"): st.append(t == "true"); continue
            nop += 1
            if path.cur is not None and t not in ("m", "l", "c", "v", "y", "h", "re", "W", "W*", "n", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*"):
                # strictly illegal between path construction and painting; recorded, not fatal
                events.append(None)
                self.ops_in_path = getattr(self, "ops_in_path", 0) + 1
                events.pop()
            if t == "q":
                need(0); stack.append(gs); gs = gs.copy()
            elif t == "Q":
                need(0)
                if not stack: self.err("Q without q")
                gs = stack.pop()
            elif t == "cm":
                gs.ctm = mul(tuple(map(float, need(6))), gs.ctm)
            elif t == "w": gs.lw = float(need(1)[0])
            elif t == "J":
                gs.cap = need(1)[0]
                if gs.cap not in (0, 1, 2): self.err("line cap")
            elif t == "j":
                gs.join = need(1)[0]
                if gs.join not in (0, 1, 2): self.err("line join")
            elif t == "M": gs.miter = float(need(1)[0])
            elif t == "d":
                a, o = need(2); gs.dash = (tuple(map(float, a)), float(o))
                if any(x < 0 for x in a) or (a and not any(a)): self.err("dash %r" % a)
            elif t == "G": gs.stroke = col("gray", 1)
            elif t == "g": gs.fill = col("gray", 1)
            elif t == "RG": gs.stroke = col("rgb", 3)
            elif t == "rg": gs.fill = col("rgb", 3)
            elif t == "K": gs.stroke = col("cmyk", 4)
            elif t == "k": gs.fill = col("cmyk", 4)
            elif t in ("cs", "CS"):
                need(1)
                if st[0] not in ("Pattern", "DeviceGray", "DeviceRGB", "DeviceCMYK"): resource("ColorSpace", st[0])
            elif t in ("scn", "SCN"):
                n = st[-1]; pat = resource("Pattern", n)
                if t == "scn": gs.fill = ("pattern", n)
                else: gs.stroke = ("pattern", n)
            elif t == "gs":
                e = resource("ExtGState", need(1)[0])
                if "CA" in e: gs.salpha = float(e["CA"])
                if "ca" in e: gs.falpha = float(e["ca"])
            elif t == "m":
                if path.subs and path.open and not path.subs[-1].segs: path.subs.pop()
                path.moveto(*P_(*need(2)))
            elif t == "l":
                need(2)
                if path.cur is None: self.err("l without current point")
                path.lineto(*P_(*st))
            elif t == "c":
                need(6)
                if path.cur is None: self.err("c without current point")
                path.curveto(*P_(*st[0:2]), *P_(*st[2:4]), *P_(*st[4:6]))
            elif t == "v":
                need(4); path.curveto(*path.cur, *P_(*st[0:2]), *P_(*st[2:4]))
            elif t == "y":
                need(4); path.curveto(*P_(*st[0:2]), *P_(*st[2:4]), *P_(*st[2:4]))
            elif t == "h": need(0); path.closepath()
            elif t == "re":
                x, y, w, h = need(4)
                path.moveto(*P_(x, y)); path.lineto(*P_(x+w, y)); path.lineto(*P_(x+w, y+h)); path.lineto(*P_(x, y+h)); path.closepath()
            elif t in ("W", "W*"):
                need(0); pendclip = "nonzero" if t == "W" else "evenodd"
                if path.cur is None: self.err("clip without path")
            elif t in ("n", "S", "s", "f", "F", "f*", "B", "B*", "b", "b*"):
                need(0)
                if path.cur is None and t not in ("n", "S", "f", "f*", "B", "B*"): self.err("%s without path" % t)
                if path.cur is None:
                    self.emptypaints = getattr(self, "emptypaints", 0) + 1
                    path = Builder(); pendclip = None; st.clear()
                    continue
                if t in ("s", "b", "b*"): path.closepath()
                subs = path.subs
                if t in ("f", "F", "B", "b"): events.append(Ev("fill", gs, subs, rule="nonzero"))
                if t in ("f*", "B*", "b*"): events.append(Ev("fill", gs, subs, rule="evenodd"))
                if t in ("S", "s", "B", "B*", "b", "b*"): events.append(Ev("stroke", gs, subs))
                if pendclip:
                    gs.clips = gs.clips + ((tuple(subs), pendclip),)
                    pendclip = None
                path = Builder()
            elif t == "BT":
                if intext: self.err("nested BT")
                intext = True; tm = IDENT; need(0)
            elif t == "ET":
                if not intext: self.err("ET without BT")
                intext = False; need(0)
            elif t == "Tf":
                f = resource("Font", need(2)[0]); gs.font = f; gs.fontname = st[0]; gs.fontsize = float(st[1])
            elif t in ("Tm", "Td", "Tj", "TJ", "Tr", "Tc", "Tw", "Ts", "Tz", "TL", "T*", "'"):
                if t in ("Tm", "Td", "Tj", "TJ", "'") and not intext: self.err("%s outside BT/ET" % t)
                if t == "Tm": tm = tuple(map(float, need(6)))
                elif t == "Td": tm = mul((1, 0, 0, 1, *map(float, need(2))), tm)
                elif t in ("Tj", "TJ", "'"):
                    need(1)
                    if gs.font is None: self.err("text without font")
                    events.append(Ev("text", gs, (), font=gs.fontname, fontobj=gs.font, size=gs.fontsize, show=st[0], tm=mul(tm, gs.ctm),
                                     codes=[c for x in (st[0] if t == "TJ" else [st[0]]) if isinstance(x, (bytes, bytearray)) for c in x]))
            elif t == "Do":
                x = resource("XObject", need(1)[0])
                if x.get("Subtype") == "Image": events.append(Ev("image", gs, (), obj=x, name=st[0]))
                elif x.get("Subtype") == "Form": events.append(Ev("form", gs, (), obj=x))
                else: self.err("XObject subtype")
            elif t == "sh":
                events.append(Ev("shading", gs, (), obj=resource("Shading", need(1)[0])))
            elif t in ("i", "ri"): need(1)
            elif t in ("BMC", "EMC", "BDC"): pass
            else:
                self.err("unknown operator %r" % t)
            st.clear()
        if stack: self.err("%d unmatched q" % len(stack))
        if intext: self.err("unterminated BT")
        if path.cur is not None: self.err("unpainted path at end of content")
        if st: self.err("operands %r left at end of content" % st)
        self.nops = getattr(self, "nops", 0) + nop


def read_pdf(data):
    pdf = PDF(data)
    return pdf, [pdf.page(i) for i in range(len(pdf.pages))]


# ---------------------------------------------------------------- SVG
import xml.etree.ElementTree as ET
SVGNS = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
_svgnum = re.compile(r"\s*,?\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


def svgnums(s, n=None):
    out = []; p = 0
    while True:
        m = _svgnum.match(s, p)
        if not m: break
        out.append(float(m.group(1))); p = m.end()
    if s[p:].strip(): raise Malformed("SVG number list %r" % s)
    if n is not None and len(out) != n: raise Malformed("SVG number list %r has not %d entries" % (s, n))
    return out


def svgtransform(s):
    m = IDENT; p = 0
    rx = re.compile(r"\s*,?\s*(\w+)\s*\(([^)]*)\)")
    while True:
        k = rx.match(s, p)
        if not k: break
        a = svgnums(k.group(2)); f = k.group(1); p = k.end()
        if f == "matrix" and len(a) == 6: x = tuple(a)
        elif f == "translate" and len(a) in (1, 2): x = (1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)
        elif f == "scale" and len(a) in (1, 2): x = (a[0], 0, 0, a[-1], 0, 0)
        elif f == "rotate" and len(a) in (1, 3):
            c, s_ = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
            x = (c, s_, -s_, c, 0, 0)
            if len(a) == 3: x = mul(mul((1, 0, 0, 1, -a[1], -a[2]), x), (1, 0, 0, 1, a[1], a[2]))
        elif f == "skewX" and len(a) == 1: x = (1, 0, math.tan(math.radians(a[0])), 1, 0, 0)
        elif f == "skewY" and len(a) == 1: x = (1, math.tan(math.radians(a[0])), 0, 1, 0, 0)
        else: raise Malformed("SVG transform %r" % s)
        m = mul(x, m)
    if s[p:].strip(): raise Malformed("SVG transform %r" % s)
    return m


def svgarc(p0, rx, ry, phi, fa, fs, p1):
    from geo import Arc
    if rx == 0 or ry == 0: return Line(p0, p1)
    if p0 == p1: return None
    rx, ry = abs(rx), abs(ry)
    ph = math.radians(phi); c, s = math.cos(ph), math.sin(ph)
    dx, dy = (p0[0]-p1[0])/2, (p0[1]-p1[1])/2
    X, Y = c*dx+s*dy, -s*dx+c*dy
    L = X*X/rx/rx + Y*Y/ry/ry
    if L > 1: rx *= math.sqrt(L); ry *= math.sqrt(L)
    q = max(0, (rx*rx*ry*ry-rx*rx*Y*Y-ry*ry*X*X)/(rx*rx*Y*Y+ry*ry*X*X))
    k = math.sqrt(q)*(-1 if fa == fs else 1)
    cx, cy = k*rx*Y/ry, -k*ry*X/rx
    a0 = math.atan2((Y-cy)/ry, (X-cx)/rx); a1 = math.atan2((-Y-cy)/ry, (-X-cx)/rx)
    if fs and a1 < a0: a1 += 2*math.pi
    if not fs and a1 > a0: a1 -= 2*math.pi
    C = (c*cx-s*cy+(p0[0]+p1[0])/2, s*cx+c*cy+(p0[1]+p1[1])/2)
    return Arc((rx*c, rx*s, -ry*s, ry*c, C[0], C[1]), a0, a1)


def svgpath(d):
    "SVG path data -> Builder in SVG coordinates"
    b = Builder()
    toks = re.findall(r"[a-zA-Z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", d)
    rest = re.sub(r"[a-zA-Z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", "", d)
    if rest.replace(",", "").strip(): raise Malformed("SVG path data garbage %r" % rest[:40])
    i = 0; cmd = None; lastc = lastq = None
    N = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "A": 7, "Z": 0}
    first = True
    while i < len(toks):
        if toks[i].isalpha() and not toks[i][0].isdigit():
            cmd = toks[i]; i += 1
            if cmd.upper() not in N: raise Malformed("SVG path command %r" % cmd)
            if first and cmd not in "Mm": raise Malformed("SVG path does not start with M")
            if cmd in "zZ":
                b.closepath(); lastc = lastq = None; continue
        elif cmd is None or cmd in "zZ":
            raise Malformed("SVG path data: number without command")
        n = N[cmd.upper()]
        try:
            if cmd in "aA":
                a = []
                # flags may be run together; pyx input generators separate them
                a = [float(x) for x in toks[i:i+7]]
            else:
                a = [float(x) for x in toks[i:i+n]]
        except ValueError:
            raise Malformed("SVG path data: command %s lacks numbers" % cmd)
        if len(a) < n: raise Malformed("SVG path data: command %s lacks numbers" % cmd)
        i += n
        x0, y0 = b.cur if b.cur is not None else (0.0, 0.0)
        rel = cmd.islower()
        C = cmd.upper()
        def ab(v): return [q + (x0 if k % 2 == 0 else y0) for k, q in enumerate(v)] if rel else v
        nc = nq = None
        if C == "M":
            v = ab(a); b.moveto(*v); cmd = "l" if rel else "L"
        elif C == "L": b.lineto(*ab(a))
        elif C == "H": b.lineto(a[0] + (x0 if rel else 0), y0)
        elif C == "V": b.lineto(x0, a[0] + (y0 if rel else 0))
        elif C == "C":
            v = ab(a); b.curveto(*v); nc = v[2:4]
        elif C == "S":
            v = ab(a); c1 = (2*x0-lastc[0], 2*y0-lastc[1]) if lastc else (x0, y0)
            b.curveto(*c1, *v); nc = v[0:2]
        elif C in "QT":
            v = ab(a)
            if C == "Q": q = v[0:2]; e = v[2:4]
            else: q = (2*x0-lastq[0], 2*y0-lastq[1]) if lastq else (x0, y0); e = v
            b.curveto(x0+2/3*(q[0]-x0), y0+2/3*(q[1]-y0), e[0]+2/3*(q[0]-e[0]), e[1]+2/3*(q[1]-e[1]), *e); nq = q
        elif C == "A":
            e = [a[5]+(x0 if rel else 0), a[6]+(y0 if rel else 0)]
            s = svgarc((x0, y0), a[0], a[1], a[2], bool(a[3]), bool(a[4]), tuple(e))
            if s is not None:
                b._need().segs.append(s); b.cur = tuple(e)
        lastc, lastq = nc, nq
        first = False
    return b


SVGCOL = {"black": (0, 0, 0), "white": (1, 1, 1), "red": (1, 0, 0), "blue": (0, 0, 1), "green": (0, 128/255, 0)}


def svgcolor(s):
    if s == "none": return None
    if s in SVGCOL: return ("rgb", SVGCOL[s])
    m = re.match(r"#([0-9a-fA-F]{3}|[0-9a-fA-F]{6})$", s)
    if m:
        h = m.group(1)
        if len(h) == 3: h = "".join(c*2 for c in h)
        return ("rgb", tuple(int(h[i:i+2], 16)/255 for i in (0, 2, 4)))
    m = re.match(r"url\(#([^)]+)\)$", s)
    if m: return ("pattern", m.group(1))
    raise Malformed("SVG color %r" % s)


def svglen(s):
    m = re.match(r"([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)(pt|px|cm|mm|in|pc)?$", s)
    if not m: raise Malformed("SVG length %r" % s)
    return float(m.group(1))*{None: 1, "pt": 1, "px": 0.75, "cm": 72/2.54, "mm": 72/25.4, "in": 72, "pc": 12}[m.group(2)]


class SVG:
    def __init__(self, data):
        try:
            self.root = ET.fromstring(data)
        except ET.ParseError as e:
            raise Malformed("SVG is no well-formed XML: %s" % e)
        if self.root.tag != SVGNS + "svg": raise Malformed("SVG root element %s" % self.root.tag)
        self.ids = {}
        for e in self.root.iter():
            if e.tag.startswith("{") and not e.tag.startswith(SVGNS): raise Malformed("foreign element %s" % e.tag)
            if not e.tag.startswith("{"): raise Malformed("element without namespace %s" % e.tag)
            i = e.get("id")
            if i is not None:
                if i in self.ids: raise Malformed("duplicate id %s" % i)
                self.ids[i] = e
        r = self.root
        self.box = None
        if r.get("viewBox") is not None:
            x, y, w, h = svgnums(r.get("viewBox"), 4)
            if w < 0 or h < 0: raise Malformed("negative viewBox %r" % r.get("viewBox"))
            self.box = (x, -(y+h), x+w, -y)
        self.width = svglen(r.get("width")) if r.get("width") else None
        self.height = svglen(r.get("height")) if r.get("height") else None
        self.page = Page()
        self.page.box = self.box
        gs = GS()
        gs.svgstroke = gs.svgfill = None
        gs.ctm = (1, 0, 0, -1, 0, 0)
        gs.fill = ("rgb", (0, 0, 0)); gs.stroke = None
        gs.miter = 4.0; gs.alpha = 1.0; gs.rule = "nonzero"
        self.walk(r, gs, top=True)

    def attrs(self, e, gs):
        if e.get("transform"): gs.ctm = mul(svgtransform(e.get("transform")), gs.ctm)
        for k, v in e.attrib.items():
            if k == "fill": gs.fill = svgcolor(v)
            elif k == "stroke": gs.stroke = svgcolor(v)
            elif k == "stroke-width": gs.lw = svglen(v)
            elif k == "stroke-linecap": gs.cap = {"butt": 0, "round": 1, "square": 2}[v]
            elif k == "stroke-linejoin": gs.join = {"miter": 0, "round": 1, "bevel": 2}[v]
            elif k == "stroke-miterlimit": gs.miter = float(v)
            elif k == "stroke-dasharray": gs.dash = (() if v == "none" else tuple(svgnums(v)), gs.dash[1])
            elif k == "stroke-dashoffset": gs.dash = (gs.dash[0], float(v))
            elif k == "fill-rule": gs.rule = {"nonzero": "nonzero", "evenodd": "evenodd"}[v]
            elif k == "opacity": gs.alpha = gs.alpha*float(v)
            elif k == "fill-opacity": gs.falpha = float(v)
            elif k == "stroke-opacity": gs.salpha = float(v)
            elif k == "clip-path":
                m = re.match(r"url\(#([^)]+)\)$", v)
                if not m or m.group(1) not in self.ids: raise Malformed("clip-path %r does not resolve" % v)
                c = self.ids[m.group(1)]
                if c.tag != SVGNS + "clipPath": raise Malformed("clip-path refers to %s" % c.tag)
                subs = []
                rule = "nonzero"
                for p in c:
                    if p.tag != SVGNS+"path": raise Malformed("clipPath child %s" % p.tag)
                    m2 = gs.ctm
                    if p.get("transform"): m2 = mul(svgtransform(p.get("transform")), m2)
                    if p.get("clip-rule"): rule = p.get("clip-rule")
                    subs += [s.tr(m2) for s in svgpath(p.get("d")).subs]
                gs.clips = gs.clips + ((tuple(subs), rule),)

    def walk(self, e, gs, top=False):
        gs2 = gs.copy()
        for k in ("alpha", "rule"): setattr(gs2, k, getattr(gs, k))
        gs = gs2
        tag = e.tag[len(SVGNS):]
        if tag in ("defs", "clipPath", "pattern", "title", "desc", "metadata", "symbol"):
            return
        self.attrs(e, gs)
        for ref in (gs.fill, gs.stroke):
            if ref and ref[0] == "pattern" and ref[1] not in self.ids: raise Malformed("paint reference %s unresolved" % ref[1])
        if tag in ("svg", "g"):
            for c in e: self.walk(c, gs)
        elif tag in ("path", "rect", "circle"):
            if tag == "path": b = svgpath(e.get("d", ""))
            elif tag == "rect":
                b = Builder(); x, y, w, h = [svglen(e.get(k, "0")) for k in ("x", "y", "width", "height")]
                b.moveto(x, y); b.lineto(x+w, y); b.lineto(x+w, y+h); b.lineto(x, y+h); b.closepath()
            else:
                b = Builder(); b.arc(svglen(e.get("cx", "0")), svglen(e.get("cy", "0")), svglen(e.get("r", "0")), 0, 360); b.closepath()
            subs = [s.tr(gs.ctm) for s in b.subs]
            gs.falpha_, gs.salpha_ = gs.falpha, gs.salpha
            f0, s0 = gs.falpha, gs.salpha
            gs.falpha, gs.salpha = f0*gs.alpha, s0*gs.alpha
            if gs.fill is not None:
                self.page.events.append(Ev("fill", gs, subs, rule=gs.rule, elem=e))
            if gs.stroke is not None:
                self.page.events.append(Ev("stroke", gs, subs, elem=e))
            gs.falpha, gs.salpha = f0, s0
        elif tag == "image":
            h = e.get(XLINK + "href") or e.get("href")
            ev = Ev("image", gs, (), elem=e, href=h, rect=tuple(svglen(e.get(k, "0")) for k in ("x", "y", "width", "height")))
            ev.alpha = gs.alpha
            self.page.events.append(ev)
        elif tag == "text":
            self.page.events.append(Ev("text", gs, (), elem=e))
        elif tag == "a":
            for c in e: self.walk(c, gs)
        elif tag == "use":
            h = (e.get(XLINK + "href") or e.get("href"))[1:]
            if h not in self.ids: raise Malformed("use of unknown id %s" % h)
            g3 = gs.copy(); g3.alpha, g3.rule = gs.alpha, gs.rule
            g3.ctm = mul((1, 0, 0, 1, svglen(e.get("x", "0")), svglen(e.get("y", "0"))), gs.ctm)
            t = self.ids[h]
            self.walk(t, g3)
        else:
            raise Malformed("SVG element %s" % tag)


def read_svg(data):
    return SVG(data)
