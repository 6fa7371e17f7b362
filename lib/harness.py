"""Shared runtime-monitoring harness.

A check module (checks/cNN.py) provides
    PROPERTY   "C03"
    LEVEL      "exploration" | "fault_enumeration"
    RULE       how cases are made and what counts as distinct and non-trivial
    QUICK, THOROUGH   number of generated cases per tier
    REQUIRED   {counter: minimum}: what the monitors must have seen for a verdict
    def setup(env)                      (optional, once in the parent)
    def run_case(kind, i, rng, mon)     runs the code under test under its monitors
    DIRECTED   list of names: hand-chosen cases, run with kind=<name>
Generated cases have kind "gen"; case i's random stream depends only on
(property, seed, i), so any case replays alone.

Verdicts: 0 held on everything observed, 1 violation, 3 inconclusive (a monitor
was never reached, or the harness could not use the public API at all).
"""
import os, sys, json, time, random, signal, traceback, hashlib, tempfile, shutil, importlib, collections, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "pyx") + os.sep


class Violation(Exception):
    def __init__(self, mech, msg):
        Exception.__init__(self, "%s: %s" % (mech, msg))
        self.mech, self.msg = mech, msg


class Skip(Exception):
    "case turned out not to be admissible (counted separately, never a verdict)"


class CaseTimeout(BaseException):
    pass


class Mon:
    """Collects what the monitors of one worker observed."""

    def __init__(self, tmp):
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.evaluations = 0
        self.skipped = 0
        self.maxima = {}
        self.tmp = tmp
        self.desc = None

    def describe(self, desc):
        self.desc = desc

    def count(self, name, n=1):
        self.counts[name] += n

    def nontrivial(self, key):
        if not isinstance(key, str):
            key = repr(key)
        self.keys.add(hashlib.sha1(key.encode("utf-8", "replace")).hexdigest()[:16])

    def track(self, name, value):
        if value > self.maxima.get(name, float("-inf")):
            self.maxima[name] = value

    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, cond, mech, msg=""):
        self.counts["assert:" + mech] += 1
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)

    def close(self, a, b, tol, mech, msg=""):
        self.counts["assert:" + mech] += 1
        if not (abs(a - b) <= tol):
            raise Violation(mech, "%s: got %r expected %r (tol %g)" % (msg() if callable(msg) else msg, a, b, tol))

    def ptclose(self, a, b, tol, mech, msg=""):
        self.counts["assert:" + mech] += 1
        if not (abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol):
            raise Violation(mech, "%s: got (%r, %r) expected (%r, %r) (tol %g)" % (msg() if callable(msg) else msg, a[0], a[1], b[0], b[1], tol))


def frames(tb):
    out = []
    while tb is not None:
        co = tb.tb_frame.f_code
        out.append((os.path.realpath(co.co_filename), co.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return out


def classify(e):
    """exception escaping from a case -> (verdict, mechanism, message)"""
    if isinstance(e, Violation):
        return "violation", e.mech, e.msg
    if isinstance(e, CaseTimeout):
        return "violation", "no-termination", "case exceeded its CPU limit at\n" + "".join(traceback.format_tb(e.__traceback__)[-40:])[:6000]
    fr = frames(e.__traceback__)
    inner = [f for f in fr if f[0].startswith(PKG)]
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if fr and fr[-1][0].startswith(PKG) or inner:
        f = inner[-1] if inner else fr[-1]
        return "violation", "crash:%s@%s:%s" % (type(e).__name__, f[0][len(PKG):], f[1]), text
    if isinstance(e, (ImportError, MemoryError)) or (isinstance(e, AttributeError) and "module 'pyx" in str(e)):
        return "inconclusive", "api", text
    return "violation", "oracle:%s" % type(e).__name__, text


def rng_for(pid, seed, kind, i):
    return random.Random("%s/%s/%s/%s" % (pid, seed, kind, i))


def run_one(mod, seed, kind, i, mon, cpu):
    mon.desc = None
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        mod.run_case(kind, i, rng_for(mod.PROPERTY, seed, kind, i), mon)
        return None
    except Skip:
        mon.skipped += 1
        return None
    except (Exception, CaseTimeout) as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return classify(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _alarm(signum, frame):
    raise CaseTimeout()


def worker(mod, seed, jobs, outpath, tmp, deadline, cpu):
    mon = Mon(tmp)
    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    nviol = 0
    undone = 0
    for kind, i in jobs:
        if time.time() > deadline:
            undone += 1
            continue
        r = run_one(mod, seed, kind, i, mon, cpu)
        mon.evaluations += 1
        if mon.desc is not None and len(mon.samples) < 2 and r is None and (i % 7 == 3 or kind != "gen"):
            mon.samples.append({"kind": kind, "index": i, "case": str(mon.desc)[:600]})
        if r is not None:
            mon.violations.append((r[0], r[1], str(r[2])[:3000], kind, i, str(mon.desc)[:3000]))
            nviol += 1
            if nviol >= 40:
                break
    with open(outpath, "wb") as f:
        pickle.dump((mon.counts, mon.keys, mon.samples, mon.violations, mon.evaluations, mon.skipped, mon.maxima, undone, mon.notes), f)


def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                head, _, what = rest.partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split())
                known.append((d["case"], d["mech"], what))
    return known


def main(pid, tier, replay=None, only=None, dump=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return _main(pid, tier, seed, base, t0, replay, only)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(pid, tier, seed, base, t0, replay, only):
    sys.pycache_prefix = os.path.join(base, "pyc")
    sys.path.insert(0, os.path.realpath(REPO))
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(base, "pyc")
    os.environ.setdefault("TEXMFVAR", os.path.join(base, "texmf-var"))
    import logging
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    try:
        import pyx
        assert os.path.realpath(pyx.__file__).startswith(PKG), pyx.__file__
        mod = importlib.import_module(pid.lower())
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s cannot import the code under test" % pid)
        return 3
    cpu = getattr(mod, "CPU", 60)
    if hasattr(mod, "setup"):
        mod.setup(base)

    if replay:
        d = json.load(open(replay))
        seed = d["seed"]
        mon = Mon(os.path.join(base, "w")); os.makedirs(mon.tmp); os.chdir(mon.tmp)
        r = run_one(mod, seed, d["kind"], d["index"], mon, cpu)
        print("case:", mon.desc)
        print("result:", "held" if r is None else r)
        return 0 if r is None else 1

    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    jobs = [(k, 0) for k in getattr(mod, "DIRECTED", [])] + [("gen", i) for i in range(n)]
    if only is not None:
        jobs = [j for j in jobs if j[0] == only[0] and (only[1] is None or j[1] == only[1])]
    W = min(int(os.environ.get("VERIF_WORKERS", getattr(mod, "WORKERS", 8))), max(1, len(jobs)))
    limit = getattr(mod, "LIMIT", {"quick": 240, "thorough": 780})[tier]
    deadline = t0 + limit
    pids = []
    sys.stdout.flush(); sys.stderr.flush()
    for w in range(W):
        out = os.path.join(base, "out%d" % w)
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                worker(mod, seed, jobs[w::W], out, os.path.join(base, "w%d" % w), deadline, cpu)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                try:
                    import atexit
                    atexit._run_exitfuncs()
                except BaseException:
                    pass
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids.append((pid_, w, out))
    total = Mon(base)
    undone = 0
    dead = []
    for pid_, w, out in pids:
        _, st = os.waitpid(pid_, 0)
        if os.path.exists(out):
            with open(out, "rb") as f:
                c, k, s, v, ev, sk, mx, ud, notes = pickle.load(f)
            total.counts.update(c); total.keys |= k; total.samples += s
            total.violations += v; total.evaluations += ev; total.skipped += sk
            for a, b in mx.items(): total.track(a, b)
            undone += ud
            total.notes += notes
        else:
            dead.append((w, st))
    known = load_known(pid)
    knownhit = set()
    viol, inconc = [], []
    for r, mech, msg, kind, i, desc in total.violations:
        hit = [x for x in known if x[0] == kind and x[1] == mech]
        if r == "violation" and hit:
            knownhit.add(hit[0])
        elif r == "violation":
            viol.append((mech, msg, kind, i, desc))
        else:
            inconc.append((mech, msg, kind, i, desc))
    for w, st in dead:
        # a worker that dies without an answer: signal in native code counts against the code
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            viol.append(("native-crash", "worker %d died with signal %d" % (w, os.WTERMSIG(st)), "gen", w, ""))
        else:
            inconc.append(("worker-died", "worker %d status %d" % (w, st), "gen", w, ""))
    for case, mech, what in known:
        if (case, mech, what) in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    bymech = {}
    for v in viol:
        bymech.setdefault(v[0], []).append(v)
    for mech, vs in sorted(bymech.items()):
        vs.sort(key=lambda v: len(v[4]))
        mech_, msg, kind, i, desc = vs[0]
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(mech.encode()).hexdigest()[:10]))
        json.dump({"property": pid, "seed": seed, "kind": kind, "index": i, "mechanism": mech, "message": msg,
                   "case": desc, "occurrences": len(vs),
                   "replay": "python run.py %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  mechanism: %s (%d cases)\n  case %s/%d: %s\n  %s" % (mech, len(vs), kind, i, desc[:800], msg[:1500].replace("\n", "\n  ")))
    missing = []
    if only is None:
        for name, least in getattr(mod, "REQUIRED", {}).items():
            if total.counts.get(name, 0) < least:
                missing.append("%s=%d<%d" % (name, total.counts.get(name, 0), least))
        if undone > 0.5 * len(jobs):
            missing.append("only %d of %d cases within the time limit" % (len(jobs) - undone, len(jobs)))
    random.Random(seed).shuffle(total.samples)
    cov = {"evaluations": total.evaluations, "distinct_nontrivial": len(total.keys), "rule": mod.RULE,
           "samples": total.samples[:6], "skipped_inadmissible": total.skipped, "cases_not_reached": undone,
           "observed": {k: v for k, v in sorted(total.counts.items()) if not k.startswith("assert:")},
           "monitor_evaluations": {k[7:]: v for k, v in sorted(total.counts.items()) if k.startswith("assert:")},
           "maxima": total.maxima, "known_findings_seen": len(knownhit)}
    if total.notes:
        cov["notes"] = sorted(set(total.notes))[:20]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(bymech)}
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor evaluations, %d skipped, %d not reached, %.1fs"
          % (pid, tier, seed, total.evaluations, len(total.keys),
             sum(v for k, v in total.counts.items() if k.startswith("assert:")), total.skipped, undone, time.time() - t0))
    if bymech:
        return 1
    if inconc or missing:
        for v in inconc[:3]:
            print("INCONCLUSIVE property=%s %s %s/%d\n%s" % (pid, v[0], v[2], v[3], v[1][-1500:]))
        if missing:
            print("INCONCLUSIVE property=%s monitors not reached: %s" % (pid, ", ".join(missing)))
        return 3
    return 0
