"""Log histories on the real logger, one fresh (forked) process per history."""
import drv, os, sys, json, time, glob, shutil, datetime, re
from drv import PAYLOAD, SCRATCH, result
import pydantic, asyncio, argparse, logging, logging.handlers, threading, random, typing
LV = {1: "debug", 2: "info", 3: "warn", 4: "error", 5: "critical"}
NO = {1: 10, 2: 20, 3: 30, 4: 40, 5: 50}
SEV = {(5, "DEBUG"): 1, (9, "INFO"): 2, (13, "WARN"): 3, (17, "ERROR"): 4, (21, "FATAL"): 5}
MARK = re.compile(r"#(\d+)#")

class Obj:
    def __init__(s, i): s.i = i
    def __str__(s): return f"obj #{s.i}# value"

def child(h, outfile):
    d = f"{SCRATCH}/l"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for k in list(os.environ):
        if k.startswith("ECOENV_"): del os.environ[k]
    os.environ.update(ECOENV_LOG_DIR=d, ECOENV_LOCK_DIR=d, ECOENV_LOG_LEVEL=LV[h["level"]], ECOENV_LOG_BUF_SIZE=str(h["cap"]),
                      ECOENV_LOG_MAX_SIZE=str(h["maxb"]), ECOENV_LOG_MAX_FILES=str(h["maxf"]))
    sys.argv = [f"{SCRATCH}/lg.py", "-i", "0"] + ([] if h["console"] else ["-lfo"])
    cons = f"{SCRATCH}/cons"
    n = os.open(cons, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(n, 1)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    from ekosis.logs import EcoLogger
    from ekosis.standard_endpoints.log_manager import eco_log_level, eco_log_buffer
    from ekosis.data_transfer_objects import LogLevelRequestDto, LogBufferRequestDto
    E, base = EcoLogger(), f"{d}/lg-0.log"
    want, when, ev, R = {}, {}, [dict(ev="reset", level=h["level"], cap=h["cap"], maxb=h["maxb"], maxf=h["maxf"], console=h["console"])], random.Random(h["seed"])
    loggers = [logging.getLogger(), logging.getLogger("a.b"), logging.getLogger("ekosis.x")]
    if R.random() < .3: loggers[2].setLevel(1)       # a library that leaves it to the handlers
    def log(i, v, kind=None, lg=None):
        lg = lg or R.choice(loggers); kind = R.randrange(11) if kind is None else kind
        if h["ascii"] and kind in (3, 9): kind = 0
        t0 = time.time(); no = NO[v]
        pad = "p" * R.choice([0, 0, 30, 90])
        if kind == 0: m = f"message #{i}# {pad}"; want[i] = m; a = (m,)
        elif kind == 1: want[i] = f"args 7 and x{pad} #{i}#"; a = ("args %d and %s #%s#", 7, "x" + pad, i)
        elif kind == 2: l = [i, "q"]; want[i] = f"list [{i}, 'q'] #{i}#"; a = ("list %s #%d#", l, i)
        elif kind == 3: m = f"unicode \u00e9\u4e2d\U0001f600 \x7f \u2028 #{i}#"; want[i] = m; a = (m,)
        elif kind == 4: m = f"two\nlines\r\n\ttab \"quoted\" back\\slash {{brace}} 100% #{i}#"; want[i] = m; a = (m,)
        elif kind == 5: a = (Obj(i),); want[i] = str(Obj(i))
        elif kind == 6: a = ("dict %(k)s #%(i)d#", {"k": "v", "i": i}); want[i] = f"dict v #{i}#"
        elif kind == 7: m = f'{{"body": "nested json", "n": #{i}#}}'; want[i] = m; a = (m,)
        elif kind == 8: m = f"\x00\x01 control \x1b[31m #{i}#"; want[i] = m; a = (m,)
        elif kind == 9: m = f"surrogate \udce9\ud800 #{i}#"; want[i] = m.encode("utf-8", "backslashreplace").decode(); a = (m,)
        else: m = f"#{i}#" + "z" * R.choice([10, 400, 1500]); want[i] = m; a = (m,)
        try: lg.log(no, *a, exc_info=False)
        finally:
            if kind == 2: l.append("changed")
        when[i] = (t0, time.time())
    def parse(fn):
        out, junk = [], []
        with open(fn, "rb") as f: data = f.read()
        lines = data.split(b"\n")
        if lines and lines[-1] == b"": lines.pop()
        elif lines: junk.append("no newline at the end")
        for x in lines:
            try:
                r = json.loads(x); b = r["body"]; v = SEV.get((r["severity_number"], r["severity_text"]), 0)
                ts = datetime.datetime.fromisoformat(r["timestamp"]).timestamp()
                if not isinstance(b, str): raise ValueError
                for k in ("attributes", "trace_id", "span_id"): r[k]
                if r["attributes"]["application_name"] != "lg" or r["attributes"]["application_instance"] != "0": raise ValueError("names")
            except Exception as e: junk.append(x[:80].decode("latin1")); continue
            m = MARK.search(b)
            if not m: continue                                  # records of others (ekosis itself, asyncio)
            i = int(m.group(1)) if m else 0
            ok = want.get(i) == b or "surrogate" in b and b.startswith("surrogate ") and b.endswith(f" #{i}#")     # any rendering
            a, z = when.get(i, (0, 0))
            out.append(([i if ok else -i, v], a - 0.002 <= ts <= z + 0.002, len(x)))
        return out, junk, len(data), len(lines)
    def look(what="look", **kw):
        fs = [f for k in range(40, 0, -1) if os.path.exists(f := f"{base}.{k}")] + ([base] if os.path.exists(base) else [])
        extra = [x for x in glob.glob(f"{d}/*") if x not in fs and not x.endswith(".lock")]
        files, junk, big, ok = [], [f"unexpected file {x}" for x in extra], [], 1
        for f in fs:
            o, j, size, n = parse(f)
            files.append([x[0] for x in o]); junk += j; ok &= all(x[1] for x in o)
            if h["ascii"] and h["maxb"] and h["maxf"] and size > h["maxb"] and n > 1: big.append(size)
        cons_ = []
        if h["console"]:
            sys.stdout.flush(); o, j, _, _ = parse(cons); cons_ = [x[0] for x in o]
            junk += ["console: " + x for x in j]
        ev.append(dict(ev=what, files=files, junk=junk, big=big, when=int(ok), cons=cons_, **kw))
    nid = 0
    for o in h["ops"]:
        k, a = o[0], o[1]
        if k == "log": nid += 1; log(nid, a); ev.append(dict(ev="log", id=nid, v=a))
        elif k == "level":
            if R.random() < .5: E.set_level(LV[a])
            else: asyncio.run(eco_log_level(LogLevelRequestDto(level=LV[a])))
            ev.append(dict(ev="level", v=a))
        elif k == "cap":
            if R.random() < .5: E.set_buffer_size(a)
            else: asyncio.run(eco_log_buffer(LogBufferRequestDto(size=a)))
            ev.append(dict(ev="cap", v=a))
        elif k == "flush": E.flush(); ev.append(dict(ev="flush"))
        elif k == "end": logging.shutdown(); ev.append(dict(ev="flush"))
        elif k == "burst":
            nth, m = a; recs = {t: [] for t in range(1, nth + 1)}; stop = []
            def th(t):
                r = random.Random(f"{h['seed']}{t}")
                for q in range(m):
                    i, v = t * 1000 + q, r.randint(1, 5)
                    log(i, v, kind=r.choice([0, 1, 4]), lg=loggers[t % 3]); recs[t].append([i, v])
            def dist():
                r = random.Random(h["seed"])
                while not stop:
                    r.choice([lambda: E.flush(), lambda: E.set_buffer_size(r.choice([0, 1, 2, 5, 50])), lambda: time.sleep(0.0005)])()
            sw = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
            ts = [threading.Thread(target=th, args=(t,)) for t in recs] + [threading.Thread(target=dist)]
            for t in ts: t.start()
            for t in ts[:-1]: t.join()
            stop.append(1); ts[-1].join(); sys.setswitchinterval(sw)
            E.flush()
            look("burst", nth=nth, recs=[x for t in recs for x in recs[t]])
        if k != "burst" and (h["every"] or k in ("flush", "end")): look()
    with open(outfile, "w") as f: json.dump(ev, f)

out, limit = [], 60
for h in PAYLOAD["hist"]:
    fn = f"{SCRATCH}/ev.json"
    if os.path.exists(fn): os.unlink(fn)
    sys.stdout.flush(); sys.stderr.flush()
    p = os.fork()
    if p == 0:
        rc = 1
        try:
            e = os.open(f"{SCRATCH}/err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(e, 2)
            child(h, fn); rc = 0
        except BaseException:
            import traceback; traceback.print_exc()
        finally: os._exit(rc)
    end = time.time() + limit
    while not os.waitpid(p, os.WNOHANG)[0]:
        if time.time() > end:                   # a logger that never comes back
            limit = 3; os.kill(p, 9); os.waitpid(p, 0)
            with open(f"{SCRATCH}/err", "a") as f: f.write("hangs")
            break
        time.sleep(0.002)
    if os.path.exists(fn):
        with open(fn) as f: out.append(json.load(f))
    else:
        with open(f"{SCRATCH}/err", errors="replace") as f: out.append([dict(ev="reset", level=1, cap=0, maxb=0, maxf=0, died=f.read()[-1500:])])
result(dict(traces=out))
