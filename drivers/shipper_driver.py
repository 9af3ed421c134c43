"""Histories of the real log shipper: an application that writes and rotates log files, an endpoint that fails in every
way, and a shipper that is held before each of its file-system calls (shim.c) and can be killed there."""
import drv, os, sys, json, time, random, socket, select, signal, subprocess, threading, shutil, re, datetime, logging, logging.handlers
from drv import PAYLOAD, SCRATCH, result
BIN, SHIM = PAYLOAD["bin"], PAYLOAD["shim"]
MARK = re.compile(r"#(\w+):(\d+)#")
PADS = ["", "x" * 30, "é中😀 \"q\" \\ / \t", "y" * 9000, "long é" * 12000, "a\nb\r\nc", "\u2028\x7f"]
SEV = [(5, "DEBUG"), (9, "INFO"), (13, "WARN"), (17, "ERROR"), (21, "FATAL"), (0, "UNSPECIFIED")]
BAD = ["noise", "json", "shape", "array", "number", "utf8", "tstype", "sevtype", "bodytype", "attrtype", "null", "trunc", "attrs_missing"]

def record(f, k, R):
    """(bytes of the line, what the endpoint must see)"""
    us = R.choice([0, 1, 123456, 999999, R.randrange(10 ** 6)])
    t = datetime.datetime(R.choice([1970, 1999, 2026, 2038, 2100]), R.randint(1, 12), R.randint(1, 28), R.randint(0, 23), R.randint(0, 59), R.randint(0, 59), us, tzinfo=datetime.timezone.utc)
    n, x = R.choice(SEV); body = f"#{f}:{k}# " + R.choice(PADS)
    tid = R.choice([None, "%032x" % R.getrandbits(128)])
    at = dict(application_name="app_" + f, application_instance="i0", filename="f.py", lineno=R.randrange(10 ** 6), module="m", funcName="<module>")
    for a, v in (("flag", True), ("off", False), ("neg", -R.randrange(10 ** 9)), ("big", 2 ** 53 + 1), ("none", None), ("real", 2.5), ("deep", {"a": [1, "é", None]}), ("é key", "v\n\"w"), ("empty", "")):
        if R.random() < .15: at[a] = v
    o = dict(timestamp=t.isoformat(), severity_number=n, severity_text=x, body=body, attributes=at, trace_id=tid, span_id=tid and "%016x" % R.getrandbits(64))
    line = json.dumps(o, ensure_ascii=R.random() < .5, separators=R.choice([(",", ":"), (", ", ": ")]))
    want = dict(ns=str((int(t.timestamp()) * 10 ** 6 + us) * 1000), n=n, x=x, body=body, at=at, tid=o["trace_id"], sid=o["span_id"])
    return line.encode("utf-8"), want
def badline(f, k, kind):
    m = f"#{f}:{k}#"
    ok = dict(timestamp="2026-01-02T03:04:05.000006+00:00", severity_number=9, severity_text="INFO", body=m, attributes={"application_name": "app_" + f, "application_instance": "i0"}, trace_id=None, span_id=None)
    def j(**kw): return json.dumps(dict(ok, **kw)).encode()
    return dict(noise=b"plain text " + m.encode(), json=b'{"broken": ' + m.encode(), shape=json.dumps({"body": m}).encode(), array=json.dumps([m, 1]).encode(), number=m.encode() + b"12",
                utf8=b"\xff\xfe bad " + m.encode() + b" \xc3(", tstype=j(timestamp=12), sevtype=j(severity_number="x"), bodytype=j(body={"a": m}), attrtype=j(attributes=[m]),
                null=j(severity_text=None), trunc=j()[:-2], attrs_missing=json.dumps({k2: v for k2, v in ok.items() if k2 != "attributes"}).encode())[kind]

def value(v, want):
    """an attribute as it arrived; what has no OTLP type of its own may come as JSON text"""
    if "stringValue" in v and not isinstance(want, str):
        try: x = json.loads(v["stringValue"])
        except ValueError: return v["stringValue"]
        return x if want is None or isinstance(want, (float, dict)) else v["stringValue"]
    return v["stringValue"] if "stringValue" in v else int(v["intValue"]) if "intValue" in v else v.get("boolValue", v.get("doubleValue"))

class History:
    def __init__(s, h):
        s.h, s.R = h, random.Random(h["seed"])
        s.d = f"{PAYLOAD['disk'] if h.get('disk') else SCRATCH}/h"; shutil.rmtree(s.d, ignore_errors=True); os.makedirs(f"{s.d}/w")
        s.w, s.db = f"{s.d}/w", f"{s.d}/state.sqlite"
        s.ev = [dict(ev="reset")]; s.mu = threading.RLock()
        s.n, s.want, s.files, s.part, s.rot = {}, {}, {}, {}, []
        s.outcomes = list(h.get("posts", [])); s.posts = 0; s.lastpost = time.time()
        s.p, s.req, s.ack, s.buf = None, None, None, b""
        s.srv = None; s.addr = None; s.up()
        s.kick = 0; s.watched, s.stable, s.threads = set(), set(), []     # stable: there since the shipper last went to sleep
    # ---------------------------------------------------------- application
    def new(s, f):
        if f in s.n: return
        s.n[f] = 0; s.files[f] = {0: [1, 0]}
        open(f"{s.w}/{f}.log", "ab").close()
    def put(s, f, data, done):
        if done:
            s.n[f] += 1; s.files[f][0][1] = s.n[f]; s.ev.append(dict(ev="write", f=f, n=s.n[f]))
        with open(f"{s.w}/{f}.log", "ab", buffering=0) as o: o.write(data)
    def line(s, f, kind=None):
        if f in s.part: return s.finish(f)
        if kind == "empty":
            with open(f"{s.w}/{f}.log", "ab", buffering=0) as o: o.write(b"\n")
            return
        with s.mu:
            data, want = s.make(f, kind)
            s.put(f, data + b"\n", True)
    def make(s, f, kind):
        k = s.n[f] + 1
        if kind in BAD: data, want = badline(f, k, kind), None
        else: data, want = record(f, k, s.R)
        s.want[f, k] = want
        return data, want
    def partial(s, f):
        if f in s.part: return
        with s.mu:
            data, _ = s.make(f, None)
            c = s.R.choice([1, len(data) // 2, len(data), max(1, len(data) - 1)])
            s.part[f] = data[c:] + b"\n"; s.put(f, data[:c], False)
    def finish(s, f):
        if f not in s.part: return
        with s.mu:
            s.put(f, s.part.pop(f), True)
    def rotation(s, f):
        """the steps of RotatingFileHandler.doRollover"""
        keep, b = s.h.get("keep", 50), f"{s.w}/{f}.log"
        nm = lambda k: b if k == 0 else f"{b}.{k}"
        yield lambda: s.finish(f)
        for k in range(keep - 1, -1, -1):
            if k not in s.files[f]: continue
            if k + 1 in s.files[f]:
                def rm(k=k):
                    with s.mu:
                        lo, hi = s.files[f].pop(k + 1)
                        if hi >= lo: s.ev.append(dict(ev="gone", f=f, lo=lo, hi=hi))
                    os.unlink(nm(k + 1))
                yield rm
            def mv(k=k):
                if k == 0 and f not in s.watched and s.files[f][0][1] >= s.files[f][0][0]:      # never seen by the shipper: not owed
                    with s.mu: s.ev.append(dict(ev="gone", f=f, lo=s.files[f][0][0], hi=s.files[f][0][1]))
                if k == 0: s.stable.discard(f)
                s.files[f][k + 1] = s.files[f].pop(k); os.rename(nm(k), nm(k + 1))
            yield mv
        def create():
            s.files[f][0] = [s.n[f] + 1, s.n[f]]; open(b, "ab").close()
        yield create
    def do(s, op):
        """one step of the application; a rotation in progress comes first"""
        if s.rot:
            try: next(s.rot[0])()
            except StopIteration: s.rot.pop(0)
            return False
        if op is None: return False
        c, a = op[0], op[1:]
        if c == "new": s.new(a[0])
        elif c == "line": s.line(a[0], a[1] if len(a) > 1 else None)
        elif c == "part": s.partial(a[0])
        elif c == "fin": s.finish(a[0])
        elif c == "rot": s.rot.append(s.rotation(a[0]))
        elif c == "down": s.down()
        elif c == "up": s.up()
        elif c == "other": open(f"{s.w}/{a[0]}", "ab").close()
        return True
    def flush(s):
        while s.rot: s.do(None)
    # ---------------------------------------------------------- endpoint
    def up(s):
        if s.srv: return
        for _ in range(200):
            try:
                k = socket.socket(); k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                if s.addr is None:
                    p = os.getpid(); k.bind((f"127.{1 + p % 250}.{(p >> 8) % 256}.{(p >> 16) % 250 + 1}", 0)); s.addr = k.getsockname()
                else: k.bind(s.addr)
                k.listen(16); break
            except OSError: k.close(); time.sleep(.02)
        else: raise RuntimeError("endpoint can not be opened")
        s.srv = k; threading.Thread(target=s.accept, args=(k,), daemon=True).start()
    def down(s):
        if not s.srv: return
        k, s.srv = s.srv, None
        try: k.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        k.close()
    def accept(s, k):
        while True:
            try: c, _ = k.accept()
            except OSError: return
            t = threading.Thread(target=s.serve, args=(c,), daemon=True); s.threads.append(t); t.start()
    def serve(s, c):
        try:
            c.settimeout(20); data = b""
            while True:
                while b"\r\n\r\n" not in data:
                    x = c.recv(65536)
                    if not x: return
                    data += x
                head, data = data.split(b"\r\n\r\n", 1)
                if head == b"SYNC": c.sendall(b"x"); return
                hd = {a.split(b":", 1)[0].strip().lower(): a.split(b":", 1)[1].strip() for a in head.split(b"\r\n")[1:] if b":" in a}
                if hd.get(b"expect", b"").lower() == b"100-continue": c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
                if hd.get(b"transfer-encoding", b"").lower() == b"chunked":
                    while b"0\r\n\r\n" not in data: data += c.recv(65536)
                    body = b""
                    while True:
                        a, data = data.split(b"\r\n", 1); m = int(a.split(b";")[0], 16)
                        body += data[:m]; data = data[m + 2:]
                        if m == 0: break
                else:
                    m = int(hd.get(b"content-length", b"0"))
                    while len(data) < m:
                        x = c.recv(1 << 20)
                        if not x: return
                        data += x
                    body, data = data[:m], data[m:]
                with s.mu:
                    o = s.outcomes.pop(0) if s.outcomes else "ok"
                    s.received(body, o)
                    if o == "killrecv": s.kill()
                    proc = s.p
                if o in ("lost", "killrecv"): return
                if o == "hang": time.sleep(11); return
                st = dict(ok="200 OK", killack="200 OK", ok204="204 No Content", ok201="201 Created", short="200 OK").get(o, o + " x")
                if o == "short": c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\nabc"); return
                b = b"" if o == "ok204" else b"{}"
                c.sendall(f"HTTP/1.1 {st}\r\n".encode() + (b"Location: http://127.0.0.1:1/\r\n" if st.startswith("3") else b"") + b"Content-Length: %d\r\n\r\n" % len(b) + b)
                if o == "killack" and proc and s.p is proc: s.kill()
        except OSError: pass
        finally: c.close()
    def received(s, body, o):
        s.posts += 1; s.lastpost = time.time()
        ok = 1 if o.startswith("ok") or o == "killack" else 0
        by, why = {}, ""
        try:
            for rl in json.loads(body.decode("utf-8"))["resourceLogs"]:
                ra = {a["key"]: a["value"].get("stringValue") for a in rl.get("resource", {}).get("attributes", [])}
                for sl in rl["scopeLogs"]:
                    for r in sl["logRecords"]:
                        f, k, why1 = s.identify(r, ra)
                        why = why or why1
                        if f: by.setdefault(f, []).append(k)
        except Exception as e:
            by, why = {"?": [0]}, f"{type(e).__name__}: {e}"
        s.watched |= {f for f in by if f in s.n}
        for f, ids in by.items(): s.ev.append(dict(ev="post", f=f, ids=ids, ok=ok, o=o, x=why[:300]))
    def identify(s, r, ra):
        body = r.get("body", {}).get("stringValue", "")
        if body == "": return None, 0, ""
        m = MARK.search(body)
        if not m: return "?", 0, f"no known line: {body[:80]!r}"
        f, k = m.group(1), int(m.group(2))
        if (f, k) not in s.want: return f, 0, f"unknown line {f} {k}"
        w = s.want[f, k]
        if w is None: return f, k, ""
        at = {a["key"]: value(a["value"], w["at"].get(a["key"])) for a in r.get("attributes", [])}
        g = dict(ns=str(r.get("timeUnixNano")), n=r.get("severityNumber"), x=r.get("severityText"), body=body, at=at, tid=r.get("traceId"), sid=r.get("spanId"))
        if g != w: return f, 0, f"record differs: {[(q, str(g[q])[:60], str(w[q])[:60]) for q in g if g[q] != w[q]]}"
        if ra.get("service.name") != w["at"]["application_name"] or ra.get("service.instance.id") != "i0": return f, 0, f"resource {ra}"
        return f, k, ""
    # ---------------------------------------------------------- shipper
    def sync(s):
        """what the last shipper sent has arrived"""
        if s.srv:
            try:
                with socket.create_connection(s.addr, 5) as k: k.sendall(b"SYNC\r\n\r\n"); k.recv(10)
            except OSError: pass
        for t in s.threads: t.join(12)
        s.threads = []
        s.ev.append(dict(ev="fault"))
    def start(s):
        if s.p: return
        s.sync(); s.stable = set()
        with s.mu: s.start1()
    def start1(s):
        if s.p: return
        env = {k: v for k, v in os.environ.items() if not k.startswith("SHIM_") and "proxy" not in k.lower()}; pf = ()
        if not s.h.get("free"):
            r1, w1 = os.pipe(); r2, w2 = os.pipe(); pf = (w1, r2)
            env.update(LD_PRELOAD=SHIM, SHIM_DIR=s.w, SHIM_DB=s.db, SHIM_FDS=f"{w1},{r2}")
        s.err = open(f"{s.d}/err", "ab")
        s.p = subprocess.Popen([BIN, s.w, f"http://{s.addr[0]}:{s.addr[1]}/otlp/v1/logs", s.db], env=env, pass_fds=pf, stdout=subprocess.DEVNULL, stderr=s.err, cwd=s.d)
        if pf: os.close(w1); os.close(r2); s.req, s.ack, s.buf = r1, w2, b""
    def kill(s):
        with s.mu:
            p = s.p
            if p is None: return
            s.p = None; p.kill(); p.wait(); s.err.close(); s.ev.append(dict(ev="fault"))
            for x in ("req", "ack"):
                if getattr(s, x) is not None: os.close(getattr(s, x)); setattr(s, x, None)
    def request(s, timeout=3.0):
        q = s.request1(timeout)
        if q == "idle":
            s.watched |= s.stable; s.stable = {f for f in s.n if 0 in s.files[f]}
        return q
    def request1(s, timeout):
        """the call the shipper wants to make; None: it does something else; 'dead'"""
        t = time.time() + timeout
        while True:
            p, req = s.p, s.req
            if p is None: return "gone"
            if b"\n" in s.buf:
                a, s.buf = s.buf.split(b"\n", 1); return a.decode("utf-8", "replace").split(" ")[0]
            if p.poll() is not None and not (req is not None and select.select([req], [], [], 0)[0]):
                if s.p is not p: continue
                return "dead"
            if time.time() > t: return None
            try:
                if req is not None and select.select([req], [], [], .05)[0]:
                    x = os.read(req, 65536)
                    if x: s.buf += x
                    else:
                        try: p.wait(1)
                        except subprocess.TimeoutExpired: pass
                        if p.poll() is not None and s.p is p: return "dead"
                elif req is None: time.sleep(.01)
            except OSError: continue
    def go(s, c=b"c"):
        try:
            if s.ack is not None: os.write(s.ack, c)
        except OSError: pass
    def dead(s):
        with s.mu:
            if s.p is None: return
            rc = s.p.returncode; s.p = None; s.err.close()
            s.ev.append(dict(ev="died", x=f"exit {rc}: " + open(f"{s.d}/err", "rb").read()[-300:].decode("utf-8", "replace")))
            for x in ("req", "ack"):
                if getattr(s, x) is not None: os.close(getattr(s, x)); setattr(s, x, None)
    def delivered(s):
        nx = {}
        for e in s.ev:
            if e["ev"] == "post" and e["ok"]: nx[e["f"]] = e["ids"][-1]
        return all(nx.get(f, 0) >= n for f, n in s.n.items())
    def run(s):
        try:
            (s.free if s.h.get("free") else s.held)()
        finally:
            with s.mu:
                if s.p: s.p.kill(); s.p.wait(); s.p = None
            s.down()
        return s.ev
    def held(s):
        h, R = s.h, s.R
        plan = list(h["plan"]); fine = h.get("fine", 0.0); pk = h.get("pkill", 0.0); kills = h.get("kills", 3); seen = []; steps = 0
        while plan or s.rot:
            if s.p is None:               # not running: the application goes on
                if plan and plan[0][0] in ("start", "tick"): s.flush(); plan.pop(0); s.start(); continue
                if plan and plan[0][0] == "kill": plan.pop(0); continue
                if fine and R.random() < .3: s.start(); continue
                if not plan: s.flush(); continue
                if s.rot and not (fine and R.random() < .5): s.flush(); continue
                if s.do(plan[0]): plan.pop(0)
                continue
            q = s.request(); steps += 1
            if q == "dead": s.dead(); return
            if q == "gone": continue
            seen.append(q or "?")
            if steps - 1 == h.get("crash"): s.kill(); continue
            if pk and kills > 0 and R.random() < pk * (6 if (q or "").startswith("db") else 1): kills -= 1; s.kill(); continue
            if q != "idle" and q is not None:
                while fine and (plan or s.rot) and R.random() < fine and not (plan and plan[0][0] in ("tick", "start", "kill") and not s.rot):
                    if s.do(plan[0] if plan else None) and plan: plan.pop(0)
                s.go(); continue
            if fine:
                if plan and plan[0][0] in ("tick", "start") and not s.rot: plan.pop(0)
                elif plan and plan[0][0] == "kill" and not s.rot: plan.pop(0); s.kill(); continue
                elif s.do(plan[0] if plan else None) and plan: plan.pop(0)
                if q: s.go()
                continue
            while plan and plan[0][0] not in ("tick", "start", "kill"):
                s.do(plan.pop(0)); s.flush()
            if plan:
                c = plan.pop(0)
                if c[0] == "kill": s.kill(); continue
                if c[0] == "tick" and len(c) > 1:
                    with s.mu: s.outcomes = [c[1]]
            if q: s.go()
        # everything works from here on
        with s.mu: s.outcomes = []
        s.flush()
        for f in list(s.part): s.finish(f)
        s.up(); t = time.time() + 25; idle = 0
        while idle < 10 and time.time() < t:
            if s.p is None: s.start()
            q = s.request(1.0)
            if q == "dead": s.dead(); return
            if q == "idle":
                idle += 1
                if idle > 2 and s.delivered(): break
            if q and q != "gone": s.go()
            if q is None and s.delivered(): break
        s.kinds = sorted(set(seen)); s.steps = steps
        s.ev.append(dict(ev="end"))
    def free(s):
        """no shim: the shipper runs at its own pace, woken by the directory or its clock"""
        h, R = s.h, s.R; s.kinds = []; s.steps = 0
        if h["free"] == "handler": return s.handler()
        for op in h["plan"]:
            if op[0] == "start": s.start()
            elif op[0] == "kill": s.kill()
            elif op[0] in ("tick", "sleep"):
                if len(op) > 1 and op[0] == "tick":
                    with s.mu: s.outcomes.append(op[1])
                time.sleep(R.choice([0, .001, .005, .02, .05]))
            else:
                s.do(op); s.flush()
            if s.p and s.p.poll() is not None: s.dead(); return
        s.wait(h.get("kicks", 1))
    def wait(s, kicks):
        with s.mu: s.outcomes = []
        for f in list(s.part): s.finish(f)
        s.up(); s.start(); t = time.time() + 30
        while time.time() < t and not s.delivered():
            time.sleep(.1)
            if s.p and s.p.poll() is not None: s.dead(); return
            if kicks: s.kick += 1; open(f"{s.w}/kick{s.kick % 3}", "ab").write(b"x")
        time.sleep(.15)
        s.ev.append(dict(ev="end"))
    def handler(s):
        """the application's real handler writes, the shipper is killed and the endpoint fails now and then"""
        h, R = s.h, s.R; f = "a"; s.n[f] = 0; s.files[f] = {0: [1, 0]}
        hd = logging.handlers.RotatingFileHandler(f"{s.w}/{f}.log", maxBytes=h["size"], backupCount=5000, encoding="utf-8")
        hd.setFormatter(logging.Formatter("%(message)s"))
        s.start()
        for k in range(h["lines"]):
            if k == 1:
                t = time.time() + 20
                while not s.posts and time.time() < t: time.sleep(.01)
            with s.mu:
                data, _ = s.make(f, None); s.n[f] += 1; s.ev.append(dict(ev="write", f=f, n=s.n[f]))
            hd.handle(logging.LogRecord("x", 20, "f", 1, data.decode("utf-8"), None, None))
            c = R.random()
            if c < h["pkill"]: s.kill()
            elif c < h["pkill"] * 3: s.start()
            elif c < .08:
                with s.mu: s.outcomes += R.choices(["500", "lost", "killack", "ok", "400"], k=2)
            if c > .7: time.sleep(R.choice([0, .0005, .002]))
            if s.p and s.p.poll() is not None: s.dead(); return
        hd.close(); s.wait(1)

out, kinds, steps = [], set(), 0
T0 = time.time()
for h in PAYLOAD["hist"]:
    if time.time() - T0 > PAYLOAD["budget"]: break
    x = History(h); out.append(x.run()); kinds |= set(getattr(x, "kinds", [])); steps += getattr(x, "steps", 0)
result(dict(traces=out, kinds=sorted(kinds), steps=steps))
