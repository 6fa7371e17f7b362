"""A TeX process that misbehaves on demand.

faketex.py SPEC.json REALTEX args...: relays between its stdin/stdout and the real TeX and
injects one fault.  SPEC: {"fault", "id" (execute id), "page" (box number), "log" (file),
"call" (file holding the number of the caller's current call), "dat" (create texput.dat)}."""
import sys, os, json, re, subprocess, threading, time, signal

spec = json.load(open(sys.argv[1]))
cmd = sys.argv[2:]
fault, fid, page = spec.get("fault"), spec.get("id"), spec.get("page")
outdir = cmd[cmd.index("--output-directory")+1]
out = os.fdopen(1, "wb", 0)
lock = threading.Lock()
fired = []


def log(s):
    with open(spec["log"], "a") as f: f.write(s+"\n")


def fire():
    if not fired:
        fired.append(1)
        log("fired %s" % open(spec["call"]).read().strip())


def put(b):
    try: out.write(b)
    except OSError: os._exit(0)


def hang():
    while 1: time.sleep(3600)


log("pid %d" % os.getpid())
if spec.get("stubborn"): signal.signal(signal.SIGTERM, signal.SIG_IGN)
if spec.get("dat"):
    with open(os.path.join(outdir, "texput.dat"), "w") as f: f.write("aux data\n")
if fault == "die-at-once": fire(); os._exit(1)
if fault == "stall-at-once": fire(); hang()
tex = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, bufsize=0)
log("tex %d" % tex.pid)


def stop(code):
    tex.kill(); tex.wait(); os._exit(code)


def feed():
    "stdin -> tex"
    ending = False
    for line in sys.stdin.buffer:
        m = re.match(rb"\\PyXInput\{(\d+)\}", line)
        if m and int(m.group(1)) == fid:
            if fault == "die": fire(); stop(3)
            if fault == "segv": fire(); tex.kill(); tex.wait(); os.kill(os.getpid(), signal.SIGKILL)
            if fault == "stall": fire(); hang()
            if fault == "closeout": fire(); tex.kill(); out.close(); os.close(2); hang()
            if fault == "slow": fire(); time.sleep(spec["delay"])
            if fault == "flood":
                fire()
                for i in range(20000): put(b"nonsense %d %s\n" % (i, b"x"*60))
            if fault == "partial": fire(); put(b"partial output without end of line"); hang()
            if fault == "flood-ok":
                fire()
                for i in range(5000): put(b"Overfull \\hbox (%d.0pt too wide) detected at line 0\n\\tenrm x\n\n" % i)
        if line.startswith((b"\\end%", b"\\end{document}", b"\\end\n")):
            ending = True
            if fault == "end-die": fire(); stop(3)
            if fault == "end-stall": fire(); hang()
            if fault == "end-closeout": fire(); tex.kill(); out.close(); os.close(2); hang()
        try: tex.stdin.write(line)
        except OSError: return
    try: tex.stdin.close()
    except OSError: pass


def dvi_fault():
    p = os.path.join(outdir, "texput.dvi")
    if not os.path.exists(p): return
    data = open(p, "rb").read()
    if fault == "dvi-missing": fire(); os.unlink(p)
    elif fault == "dvi-empty": fire(); open(p, "wb").close()
    elif fault == "dvi-truncated":
        # within the page of the box
        i = data.find(b"\x8b\0\0\0P\0\0\0y\0\0\0X"+(page or 1).to_bytes(4, "big"))
        e = min(x for x in (data.find(b"\x8c\x8b\0\0\0P", i), data.rfind(b"\x8c\xf8")) if x >= 0)
        if i >= 0: fire(); open(p, "wb").write(data[:min(i+45+spec.get("at", 8), e)])
    elif fault == "dvi-garbage": fire(); open(p, "wb").write(bytes((x*37+11) % 256 for x in range(400)))
    elif fault == "dvi-number":
        i = data.find(b"\x8b\0\0\0P\0\0\0y\0\0\0X"+(page or 1).to_bytes(4, "big"))
        if i >= 0: fire(); open(p, "wb").write(data[:i+13]+(page+1).to_bytes(4, "big")+data[i+17:])
    elif fault == "dvi-extra":
        # one more page after the last
        i = data.find(b"\x8b\0\0\0P"); k = data.find(b"\xf8", i); j = data.rfind(b"\x8b\0\0\0P")
        k = data.rfind(b"\x8c", 0, data.rfind(b"\xf8"))+1
        fire(); open(p, "wb").write(data[:k]+data[j:k]+data[k:])


HARMLESS = {"overfull": b"Overfull \\hbox (3.0pt too wide) in paragraph at lines 1--1\n\\tenrm abc\n\n",
            "fontwarning": b"LaTeX Font Warning: Font shape `T1/xx/m/n' undefined\n(Font)              using `T1/cmr/m/n' instead on input line 5.\n",
            "packagewarning": b"Package foo Warning: something is odd\n(foo)                with more explanation on input line 3.\n"}
threading.Thread(target=feed, daemon=True).start()
marker = b"PyXInputMarker:executeid=%d:" % (fid or -1)
box = b"PyXBox:page=%d," % (page or -1)
ship = b"[80.121.88.%d" % (page or -1)
for line in tex.stdout:
    if marker in line:
        if fault == "drop-marker": fire(); put(line.replace(marker, b"")); continue
        if fault == "wrong-marker": fire(); line = line.replace(marker, b"PyXInputMarker:executeid=%d:" % (fid+1))
        if fault == "double-marker": fire(); line = line+marker+b"\n"
        if fault == "message": fire(); line = b"some unexpected message\n"+line
        if fault == "message-after": fire(); line = line.rstrip(b"\n")+b" trailing\n"
        if fault == "error": fire(); line = b"! TeX capacity exceeded, sorry [main memory size=5000000].\n"+line
        if fault in HARMLESS: fire(); line = b"\n"+HARMLESS[fault]+line
        if fault == "crlf": fire(); line = line.replace(b"\n", b"\r\n")
        if fault == "nonascii": fire(); line = b"\xff\xfe\x80 odd bytes\n"+line
        if fault == "die-after": fire(); put(line); stop(3)
    if box in line:
        if fault == "drop-box": fire(); continue
        if fault == "wrong-box": fire(); line = line.replace(box, b"PyXBox:page=%d," % (page+1))
        if fault == "old-box": fire(); line = line.replace(box, b"PyXBox:page=%d," % (page-1))
        if fault == "garbled-box": fire(); line = line.replace(b"lt=", b"lt=x")
        if fault == "cut-box": fire(); line = line[:len(line)//2]+b"\n"
    if ship in line:
        if fault == "drop-ship": fire(); line = line.replace(ship, b"").replace(b"]", b"", 1)
        if fault == "wrong-ship": fire(); line = line.replace(ship, b"[80.121.88.%d" % (page+7))
    if b"This is " in line and fault == "banner": fire(); line = line.replace(b"This is ", b"Here comes ")
    if b"Undefined control sequence" in line and fault == "noscroll": fire(); line = line.replace(b"Undefined control sequence", b"All fine")
    if b"Output written on" in line or b"Transcript written" in line or b"No pages of output" in line:
        if fault == "end-drop-output" and b"Output written" in line: fire(); continue
        if fault == "end-drop-transcript" and b"Transcript" in line: fire(); line = b"\n"
        if fault == "end-message": fire(); line = b"unexpected final words\n"+line
        if fault == "end-error": fire(); line = b"! Emergency stop.\n"+line
    if fault == "end-pages" and re.search(rb"\(\d+ pages?,", line): fire(); line = re.sub(rb"\((\d+) (pages?),", lambda m: b"(%d %s," % (int(m.group(1))+3, m.group(2)), line)
    if fault == "end-fewer" and re.search(rb"\(([2-9]|\d\d+) pages,", line): fire(); line = re.sub(rb"\((\d+) (pages?),", lambda m: b"(%d %s," % (int(m.group(1))-1, m.group(2)), line)
    put(line)
rc = tex.wait()
if fault and fault.startswith("dvi-"): dvi_fault()
if fault == "end-linger": fire(); hang()
if fault == "end-code": fire(); rc = 7
out.close()
if fault == "end-outlive": fire(); os.close(2); hang()
os._exit(rc)
