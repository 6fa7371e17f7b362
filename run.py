#!/usr/bin/env python3
"""run.py C03 [quick|thorough] [--replay FILE] [--only KIND[:INDEX]]"""
import os, sys
PY = "/opt/venv/bin/python"
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ)
    rc = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "pyxrc")
    if os.path.exists(rc+"-"+sys.argv[1]): rc += "-"+sys.argv[1]
    env.update(VERIF_REEXEC="1", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED=env.get("VERIF_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
               PYXRC=env.get("VERIF_PYXRC", rc),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME="/nonexistent-home")
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness
a = sys.argv[1:]
pid = a[0]
tier = "quick"
replay = only = None
rest = a[1:]
while rest:
    x = rest.pop(0)
    if x in ("quick", "thorough"): tier = x
    elif x == "--replay": replay = rest.pop(0)
    elif x == "--only":
        k, _, i = rest.pop(0).partition(":")
        only = (k, int(i) if i else None)
os.chdir(harness.VERIF)
sys.exit(harness.main(pid, tier, replay, only))
