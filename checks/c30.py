"""C30: files are found where the configuration says.

Random configurations (built-in, ~/.pyxrc and $PYXRC layers; every locator in every order; directories, ls-R data bases,
kpathsea paths and a locate data base over small file trees with colliding names) are served by config.open in a process of
its own while files vanish, appear and the working directory changes.  The contents (each file names itself) are compared with
a model of the documented search rules; kpsewhich judges the kpathsea based locators.  The extension pykpathsea runs
under AddressSanitizer and UBSan."""
import os, sys, json, subprocess, shutil, sysconfig, fnmatch
from pyx import config

PROPERTY = "C30"
LEVEL = "exploration"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RULE = ("random trees of colliding names, random methods in random order, random formats and requests, repeated after files vanished or appeared and after chdir; random values, types, defaults and layers of options; "
        "distinct by methods, request kind and outcome")
QUICK, THOROUGH = 180, 5000
CPU = 120
REQUIRED = {"bad-value": 32, "found": 142, "found-after-change": 66, "found:internal": 8, "found:kpsewhich": 9, "found:local": 7, "found:locate": 15, "found:ls-R": 10, "found:pykpathsea": 7, "found:recursivedir": 17, "missing": 46, "not-found": 75, "process": 30, "sanitized-calls": 181, "sanitized-found": 29, "value:get": 96, "value:getboolean": 39, "value:getfloat": 17, "value:getint": 57, "value:getlist": 70}
DIRECTED = ["sanitizer"]
SO = PLAIN = None

FORMATS = {"tfm": ("tfm", [".tfm"]), "afm": ("afm", [".afm"]), "pfm": ("pfm", [".pfm"]), "fontmap": ("map", [".map"]), "pict": ("graphic/figure", [".eps", ".epsi"]),
           "tex_ps_header": ("PostScript header", ["", ".pro"]), "type1": ("type1 fonts", [".pfa", ".pfb"]), "vf": ("vf", [".vf"]), "dvips_config": ("dvips config", []),
           "ttf": ("truetype fonts", [".ttf", ".ttc", ".TTF", ".TTC", ".dfont"]), "t42": ("type42 fonts", [".t42", ".T42"]), "otf": ("opentype fonts", [".otf"]), "pyx": ("PyX", [])}
KPSE = {"tfm": "TFMFONTS", "afm": "AFMFONTS", "fontmap": "TEXFONTMAPS", "pict": "TEXPICTS", "tex_ps_header": "TEXPSHEADERS", "type1": "T1FONTS", "vf": "VFFONTS", "dvips_config": "TEXCONFIG",
        "ttf": "TTFONTS", "t42": "T42FONTS", "otf": "OPENTYPEFONTS"}
PYKPSE = set(KPSE)
REQUESTS = [["tfm"], ["afm"], ["fontmap", "dvips_config"], ["pict"], ["tex_ps_header"], ["type1"], ["type1"], ["vf"], ["pyx"], ["pfm"], ["ttf"], ["t42"], ["otf"], ["type1", "afm"], ["pict", "dvips_config"], ["tfm", "vf"], ["afm", "type1"]]
FAMILIES = [[["type1"], ["type1", "afm"], ["afm", "type1"]], [["pict"], ["pict", "dvips_config"]], [["tfm"], ["tfm", "vf"]]]


def setup(base):
    global SO, PLAIN
    so = os.path.join(base, "pykpathsea.so")
    cmd = ["gcc", "-g", "-O1", "-fPIC", "-shared", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-I"+sysconfig.get_path("include"), os.path.join(REPO, "pyx", "pykpathsea.c"), "-o", so, "-lkpathsea"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: print("cannot build pykpathsea:", r.stderr[-500:])
    else: SO = so
    if SO:
        PLAIN = os.path.join(base, "plain-pykpathsea.so")
        subprocess.run([c for c in cmd if not c.startswith("-fsan")][:-2] + [PLAIN, "-lkpathsea"], check=True)


def candidates(name, fmts):
    exts = [e for f in fmts for e in FORMATS[f][1]]
    if any(name.endswith(e) for e in exts): return [name]
    return [name+e for f in fmts for e in (FORMATS[f][1] or [""])]


def child(mon, spec, env, cwd, tag, asan):
    fn = os.path.join(mon.tmp, "spec.json")
    with open(fn, "w") as f: json.dump(spec, f)
    if asan:
        lib = lambda n: subprocess.run(["gcc", "-print-file-name="+n], capture_output=True, text=True).stdout.strip()
        env = dict(env, LD_PRELOAD=lib("libasan.so")+" "+lib("libubsan.so"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", PYTHONMALLOC="malloc")
    r = subprocess.run([sys.executable, os.path.join(HERE, "lib", "findfile.py"), fn], cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=100)
    if r.returncode:
        mon.fail("process-died", "exit %d: %s" % (r.returncode, r.stderr[-2000:]))
    with open(fn+".out") as f: return json.load(f)


class Tree:
    def __init__(self, top):
        self.top, self.files, self.n = top, {}, 0
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top)

    def dir(self, *p):
        d = os.path.join(self.top, *p)
        os.makedirs(d, exist_ok=True)
        return d

    def new(self):
        self.n += 1
        return "content %d\n" % self.n

    def put(self, d, name):
        p = os.path.join(d, name)
        if os.path.isdir(p): return
        self.files[p] = self.new()
        with open(p, "w") as f: f.write(self.files[p])


def below(d):
    for root, dirs, files in os.walk(d): yield root, files


def lsr(top, rng, dot):
    "ls -R output"
    lines = ["% ls-R -- maintained by hand; do not change."] if rng.random() < 0.6 else []
    todo = [("", top)]
    while todo:
        rel, d = todo.pop(0)
        lines += ([""] if lines and rng.random() < 0.8 else []) + [("." if not rel else ("./" if dot else "")+rel) + ":"]
        names = sorted(os.listdir(d))
        for n in names:
            lines.append(n)
            if os.path.isdir(os.path.join(d, n)): todo.append((os.path.join(rel, n), os.path.join(d, n)))
    return "\n".join(lines) + "\n"


def find(kind, rng, mon, tag="gen"):
    t = Tree(os.path.join(mon.tmp, "t"))
    space = rng.choice(["SPACE", "SPACE", "+", "@@"])
    def dname(s): return s.replace("_", rng.choice([" ", "_", "x"]))
    req = [rng.choice(REQUESTS) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.35: req = rng.choice(FAMILIES)
    bases = rng.sample(["fa", "fb", "f.c", "fa-b", "fä"], rng.randint(1, 3))
    if rng.random() < 0.85 and "fä" in bases: bases.remove("fä")
    bases = bases or ["fa"]
    exts = sorted({e for r in req for f in r for e in FORMATS[f][1] if e} | {"", ".dat"})
    def populate(d, p):
        for b in bases:
            for e in exts:
                if rng.random() < p: t.put(d, b+e)
    cwds = [t.dir("cwd0"), t.dir("cwd1")]
    for d in cwds: populate(d, rng.choice([0, 0.15, 0.4]))
    if rng.random() < 0.15: os.makedirs(os.path.join(cwds[0], rng.choice(bases)+rng.choice(exts)+".d"), exist_ok=True)
    methods = rng.sample(["local", "internal", "recursivedir", "ls-R", "pykpathsea", "kpsewhich", "locate"], rng.randint(1, 5))
    opts = {"methods": " ".join(methods)}
    rdirs, lsrs, ldb = [], [], []
    enc = lambda p: p.replace(" ", space)
    for k in range(rng.randint(1, 3)):
        d = t.dir(dname("r_%d" % k)); rdirs.append(d)
        populate(d, rng.choice([0, 0.2, 0.5]))
        for s in range(rng.randint(0, 2)):
            sub = t.dir(d, "s%d" % s, *(["deep"] if rng.random() < 0.3 else []))
            populate(sub, rng.choice([0, 0.2, 0.5]))
    if "recursivedir" in methods:
        l = list(rdirs)
        if rng.random() < 0.15: l.insert(rng.randint(0, len(l)), os.path.join(t.top, "missing"))
        opts["recursivedir"] = rng.choice([" ", "  ", "\n  "]).join(enc(d) for d in l)
    for k in range(rng.randint(1, 2)):
        d = t.dir(dname("l_%d" % k)); lsrs.append(d)
        populate(d, rng.choice([0, 0.2, 0.5]))
        for s in range(rng.randint(0, 2)): populate(t.dir(d, "s%d" % s), rng.choice([0, 0.2, 0.5]))
        text = lsr(d, rng, rng.random() < 0.7)
        with open(os.path.join(d, "ls-R"), "w") as f: f.write(text)
    if "ls-R" in methods:
        l = [os.path.join(d, "ls-R") for d in lsrs]
        if rng.random() < 0.1: l.insert(rng.randint(0, len(l)), os.path.join(t.top, "missing", "ls-R"))
        opts["ls-R"] = " ".join(enc(p) for p in l)
    kd = [t.dir("k0"), t.dir("k1")]
    for d in kd:
        populate(d, rng.choice([0, 0.2, 0.5]))
        if rng.random() < 0.5: populate(t.dir(d, "s"), 0.4)
    path = ":".join(d + rng.choice(["", "//"]) for d in rng.sample(kd, rng.randint(1, 2)))
    db = os.path.join(t.top, "locate.db")
    for k in range(2): populate(t.dir("loc%d" % k), rng.choice([0, 0.2, 0.5]))
    ldb = sorted(p for p in t.files if "/loc" in p)
    rng.shuffle(ldb)
    with open(db, "w") as f: f.write("".join(p+"\n" for p in ldb))
    script = os.path.join(t.top, "my locate" if rng.random() < 0.3 else "mylocate")
    with open(script, "w") as f: f.write("#!/bin/sh\nexec grep -F -e \"$1\" '%s'\n" % db)
    os.chmod(script, 0o755)
    haslocate = rng.random() < 0.9
    opts["locate"] = script if haslocate else os.path.join(t.top, "nolocate")
    haskpse = True
    if rng.random() < 0.15: opts["kpsewhich"] = os.path.join(t.top, "nokpsewhich"); haskpse = False
    # gone or new files relative to the data bases
    home = t.dir("home")
    layers = {os.path.join(home, ".pyxrc"): {}, os.path.join(t.top, "my pyxrc"): {}}
    rcs = list(layers)
    useenv = rng.random() < 0.7
    for o, v in list(opts.items()):
        rc = rcs[1] if useenv and rng.random() < 0.6 else rcs[0]
        layers[rc][o] = v
        if rc == rcs[1] and rng.random() < 0.3: layers[rcs[0]][o] = "nonsense"
    for rc in rcs:
        with open(rc, "w", encoding="utf-8") as f:
            if space != "SPACE" and rc == rcs[0]: f.write("[general]\nspace = %s\n" % space)
            f.write("[filelocator]\n" + "".join("%s = %s\n" % (o, v) for o, v in layers[rc].items()))
    env = {k: v for k, v in os.environ.items() if k not in ("PYXRC",)}
    env.update(HOME=home, MKTEXTFM="0", MKTEXPK="0", PYTHONPYCACHEPREFIX=os.environ.get("PYTHONPYCACHEPREFIX", ""), TEXMFHOME=os.path.join(home, "texmf"))
    env.pop("LD_PRELOAD", None)
    for v in KPSE.values(): env[v] = path
    if useenv: env["PYXRC"] = rcs[1]
    asan = "pykpathsea" in methods and SO is not None and rng.random() < 0.1
    ops, expects, kinds = [], [], []
    state = {"cwd": cwds[0]}
    files = dict(t.files)
    opened, touched = {}, set()

    def kpsewhich(name, fmts, known):
        for f in fmts:
            if known and f not in PYKPSE: continue
            r = subprocess.run(["kpsewhich"] + (["--progname", "dvips", "--must-exist", "--all"] if known else []) + ["--format", FORMATS[f][0], name], env=env, cwd=state["cwd"], capture_output=True, text=True, errors="surrogateescape")
            l = [x for x in r.stdout.split("\n") if x]
            if l: return [os.path.join(state["cwd"], x) for x in (l if known else l[:1])]
        return []

    def search(name, fmts):
        "-> list of (method, acceptable files), in the order of the methods"
        cand = candidates(name, fmts)
        res = []
        for m in methods:
            ok = []
            if m == "local":
                ok = [os.path.join(state["cwd"], c) for c in cand]
                ok = [p for p in ok if p in files][:1]
            elif m == "internal":
                for c in cand:
                    p = os.path.join(REPO, "pyx", "data", os.path.splitext(c)[1][1:], c)
                    if os.path.isfile(p): ok = [p]; break
            elif m == "recursivedir":
                per = []
                for d in rdirs:
                    best = []
                    for root, _ in below(d):
                        here = [os.path.join(root, c) for c in cand if os.path.join(root, c) in files]
                        if here: best.append(here[0])
                    per.append(best)
                per = [b for b in per if b]
                if len({os.path.basename(p) for b in per for p in b}) <= 1: ok = per[0] if per else []
                else: ok = [p for b in per for p in b]
            elif m == "ls-R":
                per = []
                for d in lsrs:
                    for c in cand:
                        l = [os.path.join(root, c) for root, _ in below(d) if os.path.join(root, c) in t.files]
                        if l: per.append((cand.index(c), l))
                ok = [] if not per else per[0][1] + min(per)[1]
                ok = [p for p in ok if p in files]
            elif m == "locate" and haslocate:
                for c in cand:
                    l = [p for p in ldb if os.path.basename(p) == c]
                    if l: ok = l[:1]; break
                ok = [p for p in ok if p in files]
            elif m == "kpsewhich" and haskpse: ok = kpsewhich(name, fmts, False)
            elif m == "pykpathsea" and SO: ok = kpsewhich(name, fmts, True)
            if ok: res.append((m, ok))
        return res

    def data(p):
        if p in files: return files[p]
        with open(p, "rb") as f: return f.read().decode("latin-1")

    for k in range(rng.randint(5, 16)):
        r = rng.random()
        if r < 0.12:
            state["cwd"] = rng.choice(cwds); ops.append({"op": "chdir", "dir": state["cwd"]}); expects.append(None); kinds.append("chdir"); touched.add("*"); continue
        if r < 0.24:
            d, n = rng.choice(cwds), rng.choice(bases)+rng.choice(exts)
            p = os.path.join(d, n)
            files[p] = "fresh %d\n" % k
            ops.append({"op": "write", "path": p, "data": files[p]}); expects.append(None); kinds.append("write"); touched.add("*"); continue
        if r < 0.36 and opened:
            p = rng.choice(sorted(set(opened.values())))
            if p in files:
                del files[p]
                ops.append({"op": "remove", "path": p}); expects.append(None); kinds.append("remove"); touched.add("remove")
                if os.path.exists(p): os.rename(p, p+".hidden")
                continue
        fmts = rng.choice(req)
        e = [x for f in fmts for x in FORMATS[f][1]]
        name = rng.choice(bases) + (rng.choice(e) if e and rng.random() < 0.4 else rng.choice(exts) if rng.random() < 0.15 else "")
        if rng.random() < 0.08: fmts, name = ["pyx"], rng.choice(["10pt.lfs", "pyx.def", "pyxrc", "12pt.lfs"])
        if opened and rng.random() < 0.35: name, fmts = rng.choice(sorted(opened)); fmts = list(fmts)
        elif opened and rng.random() < 0.3: name = rng.choice(sorted(opened))[0]
        found = search(name, fmts)
        key = (name, tuple(fmts))
        ops.append({"op": "open", "name": name, "formats": fmts, "ascii": rng.random() < 0.3, "twice": rng.random() < 0.4})
        first = {data(p) for p in found[0][1]} if found else set()
        # once found, a file may be remembered; anything any locator offers is fine when the directory changed in between
        loose = {data(p) for _, l in found for p in l} | ({data(opened[key])} if key in opened and opened[key] in files else set())
        strict = not touched or key not in opened and "remove" not in touched
        must = bool(first) if strict else any("remove" not in touched or m in ("local", "internal", "kpsewhich", "locate") for m, _ in found)
        expects.append((key, first, loose, strict, found[0][0] if found else None, must, set(files.values())))
        kinds.append("open")
        if found: opened.setdefault(key, found[0][1][0])
    # the removals happened already above to model the search; put the files back
    for p in t.files:
        if os.path.exists(p+".hidden"): os.rename(p+".hidden", p)
    mon.describe({"methods": methods, "opts": opts, "ops": ops, "cwd": cwds[0]})
    out = child(mon, {"repo": os.path.realpath(REPO), "so": SO if asan else PLAIN, "ops": ops}, env, cwds[0], tag, asan)
    mon.check(out["kpse"] or SO is None, "extension-unused", "the extension installed as pyx.pykpathsea is not used")
    memory = {}
    for op, exp, res in zip(ops, expects, out["results"]):
        if exp is None: continue
        key, first, loose, strict, m, must, existing = exp
        if memory.get(key) in existing: loose = loose | {memory[key]}
        what = "%s for %s by %s" % (op["name"], op["formats"], methods)
        mon.check(res[0] in ("ok", "exc"), "result-"+res[0], "%s: %r" % (what, res))
        if res[0] == "exc":
            mon.check(res[1] == "IOError", "exception", "%s: %r" % (what, res))
            mon.check(not must, "not-found", "%s: %r, available at %r by %s" % (what, res, sorted(first), m))
            mon.count("not-found"); mon.nontrivial(("nf", tuple(methods), tuple(op["formats"])))
            continue
        mon.check(res[1] == ("t" if op["ascii"] else "b"), "mode", "%s: %r" % (what, res))
        mon.check(res[2] in (first if strict else loose), "wrong-file", "%s: read %r, expected %r (%s) %s" % (what, res[2], sorted(first if strict else loose), m, "strict" if strict else "loose"))
        if strict and key in memory: mon.check(memory[key] == res[2], "unstable", "%s: %r then %r" % (what, memory[key], res[2]))
        memory.setdefault(key, res[2])
        mon.count("found"); mon.count("found:"+m if strict else "found-after-change")
        mon.nontrivial((m, tuple(methods), tuple(op["formats"]), op["name"] in first))
    mon.check(out["fds"] == 0, "open-files", "%d more files are open" % out["fds"])
    mon.count("process")


VALUES = {"getint": ["5", "-17", "0", "007", "x", "1.5", ""], "getfloat": ["1.5", "-2", "1e3", "abc", "nan?"], "getboolean": ["yes", "no", "on", "Off", "1", "0", "True", "FALSE", "maybe", "2"],
          "getlist": ["a b", "a", "", "aSPACEb c", "  x   y ", "a\n  b\n  c", "SPACE", "a+b c"], "get": ["hello", "a b", "", "aSPACEb", "x = y", "ü"]}


def convert(how, v, space):
    if how == "get": return v
    if how == "getlist": return [x.replace(space, " ") if space else x for x in v.split()]
    if how == "getint":
        try: return int(v)
        except ValueError: return ValueError
    if how == "getfloat":
        try: return float(v)
        except ValueError: return ValueError
    return {"yes": True, "on": True, "1": True, "true": True, "no": False, "off": False, "0": False, "false": False}.get(v.lower(), ValueError)


def values(rng, mon):
    t = Tree(os.path.join(mon.tmp, "t"))
    home = t.dir("home")
    env = {k: v for k, v in os.environ.items() if k != "PYXRC"}
    env["HOME"] = home
    space = "SPACE"
    merged = {}
    rcs = [os.path.join(home, ".pyxrc"), os.path.join(t.top, "rc")]
    useenv, usehome = rng.random() < 0.75, rng.random() < 0.75
    for rc, use in zip(rcs, (usehome, useenv)):
        content = {}
        for _ in range(rng.randint(1, 8)):
            how = rng.choice(sorted(VALUES))
            content.setdefault(rng.choice(["text", "filelocator", "mine", "general"]), {})["o"+how+str(rng.randint(0, 2))] = rng.choice(VALUES[how])
        if rng.random() < 0.3: content.setdefault("general", {})["space"] = rng.choice(["+", "_", "SPACE", ""])
        if rng.random() < 0.3: content.setdefault("text", {})["wait"] = rng.choice(["7", "99"])
        if use:
            with open(rc, "w", encoding="utf-8") as f:
                for s, d in content.items():
                    f.write("[%s]\n" % s + "".join("%s %s %s\n" % (o, rng.choice("=:"), v) for o, v in d.items()))
            for s, d in content.items():
                for o, v in d.items(): merged[s, o] = "\n".join(x.strip() for x in v.strip().split("\n")) if v else v
    if useenv: env["PYXRC"] = rcs[1]
    elif rng.random() < 0.3: env["PYXRC"] = os.path.join(t.top, "not there")
    space = merged.get(("general", "space"), "SPACE")
    merged.setdefault(("text", "wait"), "60")
    merged.setdefault(("filelocator", "methods"), "local internal pykpathsea kpsewhich")
    keys = sorted(merged)
    ops, expects = [], []
    for _ in range(rng.randint(10, 40)):
        s, o = rng.choice(keys) if rng.random() < 0.75 else (rng.choice(["text", "mine", "nosection"]), "oget%d" % rng.randint(3, 9))
        how = next((h for h in ("getint", "getfloat", "getboolean", "getlist", "get") if o.startswith("o"+h)), {"wait": "getint", "methods": "getlist"}.get(o, "get"))
        op = {"op": "get", "how": how, "section": s, "option": rng.choice([o, o, o.upper()])}
        if rng.random() < 0.5: op["default"] = rng.choice([None, 3, ["x"], "d"])
        ops.append(op)
        if (s, o) in merged: expects.append(convert(how, merged[s, o], space))
        else: expects.append(op["default"] if "default" in op else KeyError)
    mon.describe({"merged": {"%s.%s" % k: v for k, v in merged.items()}, "ops": ops})
    out = child(mon, {"repo": os.path.realpath(REPO), "so": None, "ops": ops}, env, mon.tmp, "v", False)
    for op, exp, res in zip(ops, expects, out["results"]):
        if exp is KeyError: mon.check(res[0] == "exc" and res[1] == "configerror", "missing-option", "%r: %r" % (op, res)); mon.count("missing")
        elif exp is ValueError: mon.check(res[0] == "exc" and res[1] == "ValueError", "bad-value", "%r: %r" % (op, res)); mon.count("bad-value")
        else:
            mon.check(res[0] == "value" and res[1] == exp and res[2] == type(exp).__name__, "value", "%r: %r, expected %r" % (op, res, exp))
            mon.count("value:"+op["how"]); mon.nontrivial((op["how"], repr(exp), "default" in op))


def sanitizer(rng, mon):
    "the extension itself with all names of formats and hostile arguments"
    if SO is None:
        mon.fail("build", "pykpathsea.c does not compile")
    fn = os.path.join(mon.tmp, "k.py")
    with open(fn, "w") as f: f.write(SANCODE)
    lib = lambda n: subprocess.run(["gcc", "-print-file-name="+n], capture_output=True, text=True).stdout.strip()
    d = os.path.join(mon.tmp, "kp"); os.makedirs(os.path.join(d, "ä b"), exist_ok=True)
    for n in ("fa.tfm", "fa.pfb", "fa.map", "fa.vf", "fa.eps", "fa.pro", "fa.afm", "fa.ttf", "fa.t42", "fa.otf", "conf", "ä.tfm"):
        for dd in (d, os.path.join(d, "ä b")):
            with open(os.path.join(dd, n), "w") as f: f.write("x")
    env = dict(os.environ, MKTEXTFM="0", HOME=mon.tmp, LD_PRELOAD=lib("libasan.so")+" "+lib("libubsan.so"), ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", PYTHONMALLOC="malloc", **{v: d+"//" for v in KPSE.values()})
    r = subprocess.run([sys.executable, fn, SO], env=env, capture_output=True, text=True, timeout=100)
    if r.returncode: mon.fail("sanitizer", "exit %d: %s" % (r.returncode, r.stderr[-2500:]))
    calls, found, bad = json.loads(r.stdout)
    mon.check(not bad, "bad-result", repr(bad[:5]))
    mon.count("sanitized-calls", calls); mon.count("sanitized-found", found)


SANCODE = r'''
import sys, json, importlib.util, os
s = importlib.util.spec_from_file_location("pykpathsea", sys.argv[1]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
names = ["fa", "fa.tfm", "fa.pfb", "", "nothing", "x"*5000, "\u00e4", "a/b", "/etc/passwd", "conf", "$HOME", "~", "{a,b}", "fa//", "%s%n", "."]
fmts = ["tfm", "afm", "map", "graphic/figure", "PostScript header", "type1 fonts", "vf", "dvips config", "pfm", "truetype fonts", "type42 fonts", "opentype fonts", "PyX", "", "x"*3000]
ext = {"tfm": ".tfm", "afm": ".afm", "map": ".map", "type1 fonts": ".pfb", "vf": ".vf"}
calls = found = 0; bad = []
for rep in range(3):
    for n in names:
        for f in fmts:
            calls += 1
            try: r = m.find_file(n, f)
            except Exception as e: bad.append([n[:20], f[:20], repr(e)]); continue
            if r is not None:
                found += 1
                if not os.path.exists(r): bad.append([n[:20], f[:20], r])
                if n == "fa" and f in ext and os.path.basename(r) != "fa" + ext[f]: bad.append([n, f, r])
            elif n == "fa" and f in ext: bad.append([n, f, None])
for args in [(), ("a",), (1, 2), ("a", None), ("a\0b", "tfm"), ("a", "tfm", 1)]:
    calls += 1
    try: m.find_file(*args); bad.append(["accepted", repr(args)])
    except (TypeError, ValueError): pass
    except Exception as e: bad.append([repr(args), repr(e)])
print(json.dumps([calls, found, bad]))
'''


def run_case(kind, i, rng, mon):
    if kind == "sanitizer": return sanitizer(rng, mon)
    if rng.random() < 0.3: return values(rng, mon)
    find(kind, rng, mon)
