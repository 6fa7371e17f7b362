"""Runs a scripted TeX session (in a process of its own) and reports what every call did.

texsession.py SCRIPT.json: {"repo", "kind", "kw", "ops", "call", "report"}"""
import sys, json, os
S = json.load(open(sys.argv[1]))
sys.path[:0] = [S["repo"], os.path.dirname(os.path.abspath(__file__))]
import logging
from pyx import text, canvas, unit
import pub
R = []
boxes = {}
kw = dict(S["kw"])
if "messages" in S:
    for k, names in S["messages"].items(): kw[k] = [getattr(text.texmessage, n) for n in names]
cls = {"tex": text.TexEngine, "latex": text.LatexEngine, "stex": text.SingleTexEngine, "slatex": text.SingleLatexEngine}[S["kind"]]


def call(k, f):
    with open(S["call"], "w") as c: c.write(str(k))
    try: r = f(); R.append({"ok": 1, "result": r})
    except Exception as e:
        import traceback
        R.append({"ok": 0, "type": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:600], "where": [x.name for x in traceback.extract_tb(e.__traceback__)][-3:]})
    with open(S["report"], "w") as f: json.dump(R, f)
    with open(S["call"], "w") as c: c.write("-1")


def texts(op):
    b = eng.text(0, 0, op["expr"])
    boxes[op["name"]] = b
    return [unit.topt(x) for x in (b.left, b.right, b.height, b.depth)]


def write(op):
    c = canvas.canvas()
    for n in op["names"]:
        if n in boxes: c.insert(boxes[n])
    return [[e.font.split("+")[-1]]+list(e.codes) if e.op == "text" else [e.op] for e in pub.events(c, op["fmt"])[0]]


eng = cls(**kw)
for k, op in enumerate(S["ops"]):
    o = op["op"]
    if o == "preamble": call(k, lambda: eng.preamble(op["expr"]))
    elif o == "text": call(k, lambda: texts(op))
    elif o == "write": call(k, lambda: write(op))
    elif o == "marker": call(k, lambda: [unit.topt(x) for x in boxes[op["name"]].marker(op["marker"])] if op["name"] in boxes else None)
    elif o == "reset": call(k, lambda: eng.reset(reinit=op["reinit"]))
with open(S["call"], "w") as c: c.write(str(len(S["ops"])))
if S.get("crash"): raise RuntimeError("user program fails")
