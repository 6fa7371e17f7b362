"""Runs a list of file location requests in a process of its own (see checks/c30.py)."""
import sys, os, json, importlib.util, importlib.abc

spec = json.load(open(sys.argv[1]))
sys.path.insert(0, spec["repo"])
if spec["so"]:
    class Finder(importlib.abc.MetaPathFinder):
        "puts the extension where setup.py installs it"
        def find_spec(self, name, path, target=None):
            if name == "pyx.pykpathsea":
                return importlib.util.spec_from_file_location(name, spec["so"])
    sys.meta_path.insert(0, Finder())
os.environ.pop("LD_PRELOAD", None)
from pyx import config


def nfds(): return len(os.listdir("/proc/self/fd"))


res = []
fds = nfds()
for op in spec["ops"]:
    k = op["op"]
    try:
        if k == "open":
            fmts = [getattr(config.format, f) for f in op["formats"]]
            f = config.open(op["name"], fmts, ascii=op["ascii"])
            if f is None: r = ["none"]
            else:
                with f:
                    d = f.read()
                    r = ["ok", "t" if isinstance(d, str) else "b", d if isinstance(d, str) else d.decode("latin-1")]
                    if op.get("twice"):
                        with config.open(op["name"], fmts, ascii=op["ascii"]) as g:
                            if g is f: r = ["same"]
                            d2 = g.read()
                            if d2 != d: r = ["differs", repr(d2)[:200]]
        elif k == "write":
            with open(op["path"], "w") as f: f.write(op["data"])
            r = ["done"]
        elif k == "remove":
            os.unlink(op["path"]); r = ["done"]
        elif k == "chdir":
            os.chdir(op["dir"]); r = ["done"]
        elif k == "get":
            a = [op["section"], op["option"]] + ([op["default"]] if "default" in op else [])
            r = ["value", getattr(config, op["how"])(*a)]
            r.append(type(r[1]).__name__)
    except Exception as e:
        import configparser
        t = "IOError" if isinstance(e, OSError) else "configerror" if isinstance(e, configparser.Error) else type(e).__name__
        r = ["exc", t, str(e)[:200]]
    res.append(r)
out = {"results": res, "fds": nfds()-fds, "kpse": config.has_pykpathsea}
with open(sys.argv[1]+".out", "w") as f: json.dump(out, f)
