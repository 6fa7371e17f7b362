"""C29: TeX failures are reported, contained and cleaned up.

A relay between PyX and the real TeX injects one fault (death, stall, missing or wrong marker,
unexpected message, broken dvi file, ...) at a chosen interaction of a scripted session run in
a process of its own.  Monitored: which call raised, what the other calls returned, whether
the program ended, and which processes, directories and files are left.  In addition the
documented message filters are given random layouts of harmless and alarming messages."""
import os, sys, json, subprocess, time, shutil, signal, re, logging, itertools
import dvi, harness
from pyx import text

PROPERTY = "C29"
LEVEL = "fault_enumeration"
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
RAISE = ["die", "segv", "stall", "closeout", "flood", "partial", "drop-marker", "wrong-marker", "double-marker", "message", "message-after", "error", "nonascii", "drop-box", "wrong-box", "old-box", "garbled-box", "cut-box",
         "drop-ship", "wrong-ship", "banner", "noscroll", "die-at-once", "stall-at-once", "end-die", "end-stall", "end-closeout", "end-drop-output", "end-drop-transcript", "end-message", "end-error", "end-pages", "end-fewer",
         "end-linger", "dvi-missing", "dvi-empty", "dvi-truncated", "dvi-garbage", "dvi-number", "dvi-extra"]
FINE = ["slow", "overfull", "fontwarning", "packagewarning", "crlf", "flood-ok", "end-code", "none", "die-after", "end-outlive"]
STALLS = ["die", "segv", "stall", "partial", "closeout", "drop-marker", "wrong-marker", "stall-at-once", "die-at-once", "end-stall", "end-linger", "end-outlive", "die-after", "nocmd"]
PAGED = [f for f in RAISE if "box" in f or "ship" in f] + ["dvi-truncated", "dvi-number"]
OTHER = ["nocmd", "notexec", "crash", "userstate"]
DIRECTED = ["s.%s.%d" % (f, v) for f in RAISE+FINE+OTHER for v in (0, 1)]
RULE = ("every fault kind (%d) of the TeX process at every interaction point (start, class or size file, preamble, begin of the document, each text, end), plain TeX and LaTeX, restartable and single engines, with and without "
        "auxiliary files, with more calls following; quick enumerates every kind at two points and samples the rest; plus random layouts of messages for the documented filters; distinct by script and fault" % (len(RAISE)+len(FINE)+len(OTHER)))
QUICK, THOROUGH = 260, 2500
CPU = 300
WORKERS = 20
REQUIRED = {"session": 40, "calls-ok": 190, "calls-raised": 60, "process-ended": 40, "tmpdir-removed": 40, "usefile": 24, "accepted": 48, "missing-file": 7, "point:text": 16, "point:write": 10, "point:preamble": 3,
            "msg-box_warning": 9, "msg-end": 4, "msg-font_warning": 7, "msg-load": 25, "msg-load_def": 8, "msg-load_graphics": 4, "msg-no_aux": 8, "msg-no_nav": 10, "msg-nobbl_warning": 8, "msg-package_warning": 9, "msg-rerun_warning": 4,
            **{"fired:"+f: 1 for f in ("die", "stall", "closeout", "message", "error", "wrong-marker", "drop-marker", "wrong-box", "old-box", "dvi-truncated", "dvi-missing", "dvi-number", "dvi-extra", "nocmd", "end-linger", "end-stall", "end-pages", "banner")}}
BAD = ("AssertionError", "AttributeError", "TypeError", "NameError", "KeyError", "IndexError", "UnboundLocalError", "Full", "ZeroDivisionError")


def script(rng, kind):
    "-> ops; texts are digits in cmr10"
    ops, n = [], 0
    pre = rng.choice([0, 1, 2])
    for k in range(pre): ops.append({"op": "preamble", "expr": "\\def\\mac%s{%d}" % ("ab"[k], rng.randint(0, 99))})
    for k in range(rng.choice([1, 2, 3, 5])):
        s = "".join(rng.choice("0123456789") for _ in range(rng.randint(3, 7)))
        ops.append({"op": "text", "name": "t%d" % n, "expr": s, "digits": s}); n += 1
        r = rng.random()
        if r < 0.12: ops.append({"op": "write", "fmt": rng.choice(["pdf", "eps"]), "names": ["t%d" % j for j in range(n)]})
        elif r < 0.2:
            ops[-1]["expr"] = s + "\\PyXMarker{m}"; ops.append({"op": "marker", "name": ops[-1]["name"], "marker": "m"})
    if rng.random() < 0.8: ops.append({"op": "write", "fmt": rng.choice(["pdf", "eps"]), "names": ["t%d" % j for j in range(n)]})
    if rng.random() < 0.4:
        s = "".join(rng.choice("0123456789") for _ in range(4))
        ops.append({"op": "text", "name": "t%d" % n, "expr": s, "digits": s}); n += 1
        ops.append({"op": "write", "fmt": "pdf", "names": ["t%d" % (n-1)]})
    if kind.startswith("s"):
        # engines without restart refuse all texts once the first result was needed
        done, known, keep = False, set(), []
        for o in ops:
            if o["op"] in ("write", "marker"): done = True
            if o["op"] in ("text", "preamble"):
                if done: continue
                if o["op"] == "text": known.add(o["name"])
            if o["op"] == "write":
                o = dict(o, names=[x for x in o["names"] if x in known])
            keep.append(o)
        ops = [o for o in keep if o["op"] != "write" or o["names"]]
    return ops


def session(rng, mon, fault, variant=None):
    kind = rng.choice(["tex", "tex", "latex", "stex", "slatex"]) if variant is None else ["tex", "latex"][variant]
    ops = script(rng, kind)
    base = 4 if kind.endswith("tex") and "la" not in kind else 3
    npre = sum(o["op"] == "preamble" for o in ops)
    ntext = sum(o["op"] == "text" for o in ops)
    spec = {"fault": fault}
    if fault in PAGED: spec["page"] = rng.randint(1, ntext) if fault != "old-box" else rng.randint(1, max(1, ntext))
    else: spec["id"] = rng.choice([rng.randint(1, base+npre+1), rng.randint(base+npre+1, base+npre+ntext+1), base+npre+rng.randint(0, ntext)+(base == 3)])
    if fault == "flood": spec["id"] = max(2, spec["id"])           # everything before the startup check is ignored as documented
    if fault == "slow": spec["delay"] = 0.8
    if fault in HARMLESS_IN_TEXT: spec["id"] = base+npre+(base == 3)+rng.randint(1, ntext)
    if fault == "dvi-truncated": spec["at"] = rng.choice([-40, -10, 0, 2, 5, 9, 14])
    if rng.random() < 0.3: spec["stubborn"] = 1
    kw = {}
    files = rng.random() < 0.6
    if rng.random() < 0.3: kw["errordetail"] = rng.choice([0, 1, 2])
    S = {"kind": kind, "ops": ops, "kw": kw, "crash": fault == "crash" or rng.random() < 0.1}
    mon.describe([fault, spec, kind, ops])
    for attempt, wait in enumerate((2, 7)):
        try: return observe(mon, S, spec, files, wait, fault, rng.choice([0, 1]))
        except harness.Violation as v:
            # on a loaded machine a healthy TeX may exceed the short waiting time: only what persists counts
            if attempt: raise
            mon.count("retried")


HARMLESS_IN_TEXT = ["overfull", "fontwarning", "packagewarning", "flood-ok"]


def extents(s):
    t = dvi.tfm("cmr10")
    f = 10*72/72.27
    return [0, sum(t.width(ord(c)) for c in s)*f, max(t.height(ord(c)) for c in s)*f, max(t.depth(ord(c)) for c in s)*f]


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f: st = f.read().rsplit(")", 1)[1].split()[0]
        if st in "ZX": return False
        with open("/proc/%d/cmdline" % pid, "rb") as f: c = f.read()
        return b"faketex" in c or b"tex" in c
    except (OSError, IndexError): return False


def observe(mon, S, spec, files, wait, fault, showwait):
    d = os.path.join(mon.tmp, "s%d" % int(time.time()*1e6)); os.makedirs(os.path.join(d, "tmp"))
    p = lambda *a: os.path.join(d, *a)
    proc, pids = None, []
    try:
        with open(p(".pyxrc"), "w") as f: f.write("[text]\nwait = %d\nshowwait = %d\ntmpdir = %s\n" % (wait, showwait, p("tmp")))
        spec = dict(spec, log=p("log"), call=p("call"), dat=1)
        with open(p("spec.json"), "w") as f: json.dump(spec, f)
        open(p("log"), "w").close()
        S = dict(S, repo=harness.REPO, call=p("call"), report=p("report.json"))
        kw = dict(S["kw"])
        real = "latex" if "la" in S["kind"] else "tex"
        kw["cmd"] = [sys.executable, "-S", "-E", os.path.join(HERE, "faketex.py"), p("spec.json"), real]
        if fault == "nocmd": kw["cmd"] = [p("nosuchprogram")]
        if fault == "notexec":
            with open(p("notexec"), "w") as f: f.write("#!/bin/sh\n")
            kw["cmd"] = [p("notexec")]
        if files:
            kw["usefiles"] = [p("x.dat"), p("x.inp")]
            with open(p("x.inp"), "w") as f: f.write("user file\n")
        S["kw"] = kw
        with open(p("S.json"), "w") as f: json.dump(S, f)
        env = dict(os.environ, HOME=d, PYTHONDONTWRITEBYTECODE="1")
        limit = 40+wait*(len(S["ops"])+14)
        t0 = time.time()
        proc = subprocess.Popen([sys.executable, os.path.join(HERE, "texsession.py"), p("S.json")], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=open(p("out"), "w"), stderr=subprocess.STDOUT, start_new_session=True)
        try: proc.wait(timeout=limit)
        except subprocess.TimeoutExpired: mon.fail("hang", "the program did not end within %g s after fault %s (%s)" % (limit, fault, tail(p("out"))))
        mon.track("seconds", time.time()-t0)
        with open(p("log")) as f: log = f.read().split("\n")
        pids = [int(l.split()[1]) for l in log if l.startswith("pid ")]
        fired = [int(l.split()[1]) for l in log if l.startswith("fired")]
        if not os.path.exists(p("report.json")): mon.fail("oracle-session", "no report: %s" % tail(p("out")))
        with open(p("report.json")) as f: R = json.load(f)
        ops = S["ops"]
        mon.check(len(R) == len(ops), "calls", lambda: "%d of %d calls returned: %s" % (len(R), len(ops), tail(p("out"))))
        c = fired[0] if fired else None
        if fault in ("nocmd", "notexec"): c = 0
        mon.count("session"); mon.count("session-"+S["kind"])
        if c is not None:
            mon.count("fired:"+fault)
            mon.count("point:"+("exit" if c >= len(ops) else ops[c]["op"]))
        show = lambda k: "call %d (%s): %s" % (k, ops[k], R[k])
        good = set()
        for k, (op, r) in enumerate(zip(ops, R)):
            before = c is None or k < c or fault in FINE and fault != "die-after"
            if r["ok"]:
                if k == c and (fault in RAISE or fault in ("nocmd", "notexec")): mon.fail("silent:"+fault, "no error from %s" % show(k))
                if op["op"] == "text":
                    good.add(op["name"])
                    for a, b, n in zip(r["result"], extents(op["digits"]), ("left", "right", "height", "depth")): mon.close(a, b, 1e-3, "content", lambda: "%s of %s" % (n, show(k)))
                elif op["op"] == "write":
                    want = [(f, x) for n in op["names"] if n in good for f, x in glyphs(ops, n)]
                    got = [(q[0], x) for q in r["result"] for x in q[1:]]
                    mon.check(got == want, "content", lambda: "output %s, expected %s in %s" % (got, want, show(k)))
                elif op["op"] == "marker" and op["name"] in good:
                    o = [x for x in ops if x.get("name") == op["name"]][0]
                    mon.ptclose(r["result"], (extents(o["digits"])[1], 0), 2e-3, "content", lambda: show(k))
                mon.count("calls-ok")
            else:
                if before:
                    if not (fault == "userstate"): mon.fail("innocent", "fault %s at %s, but %s (%s)" % (fault, c, show(k), tail(p("out"))))
                mon.check(not any(b in r["mro"] for b in BAD), "error-kind", lambda: "unexpected kind of error from %s after fault %s" % (show(k), fault))
                mon.check(r["msg"].strip(), "error-text", lambda: "no description in %s" % show(k))
                mon.count("calls-raised"); mon.count("raised:"+r["type"])
        # what remains
        t1 = time.time()
        while any(alive(q) for q in pids) and time.time()-t1 < 4: time.sleep(0.05)
        left = [q for q in pids if alive(q)]
        mon.check(not left, "process", lambda: "after fault %s the TeX process survived the program (%s)" % (fault, tail(p("out"))))
        if pids: mon.count("process-ended")
        rest = os.listdir(p("tmp"))
        mon.check(not rest, "tmpdir", lambda: "after fault %s temporary directories remain: %s (%s)" % (fault, rest, tail(p("out"))))
        mon.count("tmpdir-removed")
        if files:
            mon.check(os.path.exists(p("x.inp")) and open(p("x.inp")).read() == "user file\n", "usefile", lambda: "after fault %s the auxiliary file of the user is lost (%s)" % (fault, tail(p("out"))))
            if pids: mon.check(os.path.exists(p("x.dat")) and open(p("x.dat")).read() == "aux data\n", "usefile", lambda: "after fault %s the requested auxiliary file was not saved (%s)" % (fault, tail(p("out"))))
            mon.count("usefile")
        mon.nontrivial((fault, spec.get("id"), spec.get("page"), S["kind"], [(o["op"]) for o in ops], c, files))
    finally:
        if proc is not None and proc.poll() is None: proc.kill(); proc.wait()
        if os.path.exists(p("log")):
            with open(p("log")) as f:
                for l in f:
                    if l.startswith(("pid ", "tex ")):
                        q = int(l.split()[1])
                        if alive(q):
                            try: os.kill(q, signal.SIGKILL)
                            except OSError: pass
        shutil.rmtree(d, ignore_errors=True)


def glyphs(ops, name):
    o = [x for x in ops if x.get("name") == name][0]
    return [("CMR10", ord(c)) for c in o["digits"]]


def tail(fn):
    with open(fn, errors="replace") as f: return f.read()[-900:]


# --- message filters

class Capture(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.n = 0
    def emit(self, r): self.n += 1


def wrap(s):
    "break lines as TeX does, after 79 characters"
    return "\n".join("\n".join(l[i:i+79] for i in range(0, len(l), 79)) if l else "" for l in s.split("\n"))


ALARMS = ["! Undefined control sequence.", "! Missing $ inserted.", "! LaTeX Error: Something's wrong--perhaps a missing \\item.", "Runaway argument?", "surprise", "LaTeX Warning: Reference `x' undefined.", "*** 17", "\\x=5.", "(", "<a>", "[1]"]


def fname(rng, d, ext):
    n = "".join(rng.choice("abcdefghij") for _ in range(rng.choice([3, 8, 20, 60])))
    q = rng.random() < 0.4
    if q: n = rng.choice([n+" "+n, n+" (x86)", n])
    s = os.path.join(d, *(["sub dir"] if q and rng.random() < 0.5 else []), n+ext)
    os.makedirs(os.path.dirname(s), exist_ok=True); open(s, "w").close()
    return s, q


def harmless(rng, d, kind, mon):
    "-> message of the documented kind"
    mon.count("msg-"+kind)
    if kind == "load":
        s, q = fname(rng, d, rng.choice([".tex", ".sty", ".cls", ".clo", ".cfg"]))
        inner = ""
        for _ in range(rng.choice([0, 0, 1, 2])):
            inner += rng.choice([" "+harmless(rng, d, "load", mon), " Document Class: article v1.4", " <some info>", "\nfurther text", ' ("%s")' % s if q else " [1]"])
        return ('("%s"%s)' if q else "(%s%s)") % (s, inner if not q or not "\n" in inner else inner.replace("\n", " "))
    if kind == "load_def":
        s, q = fname(rng, d, rng.choice([".fd", ".def"])); return ('("%s")' if q else "(%s)") % s
    if kind == "load_graphics":
        s, q = fname(rng, d, ".eps"); return ('<"%s">' if q else "<%s>") % s
    if kind == "box_warning": return "\n%s \\%sbox (%s) %s\n%s\n\n" % (rng.choice(["Overfull", "Underfull"]), rng.choice("hv"), rng.choice(["3.2pt too wide", "badness 10000"]), rng.choice(["in paragraph at lines 1--2", "detected at line 0", "has occurred while \\output is active"]), rng.choice(["[][]", "\\OT1/cmr/m/n/10 some text", "\\tenrm a\n\\tenbf b"]))
    if kind == "font_warning": return "\nLaTeX Font Warning: Font shape `OT1/cmr/bx/sc' undefined\n(Font)              using `OT1/cmr/bx/n' instead on input line %d.\n" % rng.randint(1, 99)
    if kind == "package_warning": return "\n%s %s %s: text of the warning%s\n" % (rng.choice(["Package", "package"]), rng.choice(["hyperref", "foo-bar", "x"]), "Warning", "") if rng.random() < 0.4 else "\nPackage babel Warning: first line\n(babel)             second line%s on input line 3.\n" % ("\n(babel)             third" if rng.random() < 0.5 else "")
    if kind == "rerun_warning": return "\nLaTeX Warning: Label(s) may have changed. Rerun to get cross-references right.\n"
    if kind == "no_aux": return rng.choice(["No file texput.aux.", "No file ./texput.aux."])
    if kind == "no_nav": return rng.choice(["No file texput.nav.", "No file ./texput.nav."])
    if kind == "nobbl_warning": return "\nNo file %s.bbl.\n" % rng.choice(["texput", "./texput"])
    if kind == "end":
        return rng.choice(["", '(%s/texput.aux)' % d, '("%s/sub dir/texput.aux")' % d]) + rng.choice(["", "\n(see the transcript file for additional information)"]) + "\nTranscript written on %s/%s." % (d, rng.choice(["texput.log", "a/b/texput.log", "x"*70+"/texput.log"]))


KINDS = ["load", "load_def", "load_graphics", "box_warning", "font_warning", "package_warning", "rerun_warning", "no_aux", "no_nav", "nobbl_warning", "end"]
WRAPPED = {"load": 1, "end": 1, "load_def": 1, "load_graphics": 1}


def blank(s): return not s.replace("*", "").strip()


def filters(rng, mon):
    d = os.path.join(mon.tmp, "m%d" % rng.randrange(10**9)); os.makedirs(d)
    h = Capture(); log = logging.getLogger("pyx"); old = log.propagate
    level = log.level; log.setLevel(logging.WARNING)
    log.addHandler(h); log.propagate = False
    try:
        k = rng.choice(KINDS)
        parse = getattr(text.texmessage, k)
        n = rng.choice([1, 1, 2, 3]) if k not in ("end",) else 1
        quoted = None
        parts = [harmless(rng, d, k, mon) for _ in range(n)]
        sep = rng.choice(["", " ", "\n"]) if k not in ("box_warning", "font_warning", "package_warning", "rerun_warning", "nobbl_warning") else "\n"
        msg = sep.join(parts)
        if k in WRAPPED: msg = wrap(msg)
        desc = [k, msg]; mon.describe(desc)
        mon.nontrivial(desc)
        out = parse(msg)
        # any number of the documented messages is accepted completely
        mon.check(blank(out), "filter:"+k, lambda: "%s left %r of %r" % (k, out, msg))
        mon.count("accepted")
        if k.endswith("warning"): mon.check(h.n >= 1, "filter-warned", "no warning logged for %r" % msg)
        # an alarming line besides it survives
        a = rng.choice(ALARMS)
        pos = rng.randrange(2 if k == "end" else 3)
        both = [a+"\n"+"\n"+msg, msg+"\n\n"+a+"\n", msg+"\n\n"+a+"\n\n"+msg+"\n"][pos]
        out = parse(both)
        flat = lambda s: s.replace("\n", "")
        mon.check(flat(a) in flat(out), "filter-swallows", lambda: "%s removed %r: %r from %r" % (k, a, out, both))
        # other harmless kinds are not its business, unless documented to overlap
        if k in ("load", "load_def", "load_graphics"):
            # files that do not exist are not accepted
            gone = msg.replace("/m", "/nomore/m", 1)
            for base, dirs, fs in os.walk(d):
                for f in fs: os.unlink(os.path.join(base, f))
            out = parse(msg)
            mon.check(not blank(out), "filter-missing", lambda: "%s accepted files which do not exist: %r" % (k, msg)); mon.count("missing-file")
        # start and end insist on their message
        if k == "end":
            try: parse(msg.replace("Transcript", "Trans cript"))
            except text.TexResultError: mon.count("end-missing")
            else: mon.fail("filter-end", "no error without a transcript message")
        p = re.compile(rng.choice(["magic [0-9]+", "magic .*?done", "^magic.*$(\n^x.*$)*"]), re.M)
        t = text.texmessage.pattern(p, "magic words")
        s = rng.choice(["magic 12 done\n", "magic 7 done"])
        q = t("before\n"+s+"\nafter")
        mon.check(p.search(q) is None and "before" in q and "after" in q, "filter-pattern", lambda: "pattern %s on %r gives %r" % (p.pattern, s, q))
        mon.check(text.texmessage.ignore(both) == "" and text.texmessage.warn(both) == "", "filter-ignore", "ignore and warn leave something")
        mon.check(blank(text.texmessage.no_file("xyz")("No file texput.xyz.")) and text.texmessage.no_file("xyz")("No file texput.abc.") == "No file texput.abc.", "filter-nofile", "no_file")
    finally:
        log.removeHandler(h); log.propagate = old; log.setLevel(level)
        shutil.rmtree(d, ignore_errors=True)


def run_case(kind, i, rng, mon):
    if kind != "gen":
        s, f, v = kind.split(".")
        return session(rng, mon, f, int(v))
    if rng.random() < (0.25 if os.environ.get("VERIF_TIER") != "thorough" else 0.35): return session(rng, mon, rng.choice(RAISE+FINE+OTHER))
    filters(rng, mon)
