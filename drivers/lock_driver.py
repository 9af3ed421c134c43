"""Processes of application instances, started under full control of their interleaving: every child reports the
lines of ekosis it is about to execute while the application object is being built, and waits there when told to."""
import drv, os, sys, json, signal, socket, select, time, glob, uuid
from drv import PAYLOAD, SCRATCH, result
KEYED = PAYLOAD.get("fresh")            # fresh: ekosis is imported by each child (own application / instance / directories)
for s in ("lock", "log", "buf", "sock", "lock2"): os.makedirs(f"{SCRATCH}/{s}", exist_ok=True)
import pydantic, asyncio, argparse, logging, logging.handlers, sqlite3, platform, typing
def configure(app, inst, lock):
    for k in list(os.environ):
        if k.startswith("ECOENV_"): del os.environ[k]
    os.environ.update(ECOENV_BUFFER_DIR=f"{SCRATCH}/buf", ECOENV_LOG_DIR=f"{SCRATCH}/log", ECOENV_LOCK_DIR=f"{SCRATCH}/{lock}",
                      **{f"ECOENV_UDS_{app.upper()}_{inst.upper()}": f"{SCRATCH}/sock/DEFAULT"})
    sys.argv = [f"{SCRATCH}/{app}.py", "-i", inst, "-lfo"]
configure("locked", "0", "lock")
if not KEYED:
    import ekosis.application_base
import ekosis as EK
BASE = os.path.dirname(os.path.abspath(EK.__file__)) + os.sep
LOCK = f"{SCRATCH}/lock/locked-0.lock"

def child(rd, wr, key):
    logf = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(logf, 1); os.dup2(logf, 2)
    state = dict(n=0, to=0); touched = []
    def say(x): os.write(wr, (json.dumps(x) + "\n").encode())
    buf = b""
    def hear():
        nonlocal buf
        while b"\n" not in buf:
            x = os.read(rd, 4096)
            if not x: os._exit(7)
            buf += x
        a, buf = buf.split(b"\n", 1)
        return json.loads(a)
    def line(frame, ev, arg):
        if ev == "line":
            state["n"] += 1
            if state["to"] is not None and state["n"] > state["to"]:
                say(["P", state["n"]]); state["to"] = hear()[1]
        return line
    def tracer(frame, ev, arg):
        return line if frame.f_code.co_filename.startswith(BASE) else None
    def audit(ev, args):
        if ev in ("sqlite3.connect", "socket.bind") or ev in ("os.remove", "os.rename", "os.truncate") and "sock" in str(args[0]):
            touched.append(f"{ev} {args[0] if ev == 'sqlite3.connect' else args[-1] if ev == 'socket.bind' else args[0]}"[:80])
    cmd = hear(); state["to"] = cmd[1]
    if key: configure(*key)
    sys.addaudithook(audit)
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from pydantic import BaseModel
    class M(BaseModel):
        n: int = 0
    @buffered_endpoint("x.buf", M)
    async def xbuf(dto):
        await asyncio.sleep(3600)
    class X(ApplicationBase): pass
    sys.settrace(tracer)
    try:
        app = X()
        sys.settrace(None); say(["U", state["n"]])
    except Exception as e:
        sys.settrace(None); say(["R", type(e).__name__, touched]); hear(); os._exit(0)
    while True:
        c = hear()[0]
        if c == "serve":
            with app: app.start()
            os._exit(0)
        if c == "exit":
            with app: pass
            os._exit(0)
        if c == "quit": sys.exit(0)
        if c == "raise": raise RuntimeError("ends with an exception")
        if c == "fork":
            g = os.fork()
            if g == 0:
                os.close(rd); os.close(wr)
                time.sleep(60); os._exit(0)
            say(["F", g])

class Proc:
    def __init__(self, name, key):
        self.name, self.key = name, key
        r1, self.w = os.pipe(); self.r, w1 = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                os.close(self.w); os.close(self.r)
                for p in LIVE: os.close(p.w); os.close(p.r)
                child(r1, w1, key)
            except SystemExit: rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally: os._exit(rc)
        os.close(r1); os.close(w1); self.buf = b""; self.state = "new"; self.zombie = False
    def tell(self, *x):
        try: os.write(self.w, (json.dumps(x) + "\n").encode())
        except BrokenPipeError: pass
    def hear(self, t):
        end = time.time() + t
        while b"\n" not in self.buf:
            if not select.select([self.r], [], [], max(0, end - time.time()))[0]: return None
            x = os.read(self.r, 65536)
            if not x: return ["D"]
            self.buf += x
        a, self.buf = self.buf.split(b"\n", 1)
        return json.loads(a)
    def reap(self):
        if self.pid:
            try: os.waitpid(self.pid, 0)
            except ChildProcessError: pass
            self.pid = 0
    def close(self):
        if self.pid:
            try: os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.reap()
        for f in (self.r, self.w):
            try: os.close(f)
            except OSError: pass

LIVE, WAITS = [], [0]
def ask(path, route, data, t=5):
    with socket.socket(socket.AF_UNIX, socket.SOCK_STREAM) as s:
        s.settimeout(t); s.connect(path)
        s.sendall((json.dumps(dict(route_key=route, span_key=dict(trace_id=str(uuid.uuid4()), span_id=os.urandom(8).hex()), data=data)) + "\n").encode())
        return json.loads(s.makefile().readline())

class Run:
    def __init__(self, h):
        self.ev, self.ps, self.extra, self.lines = [dict(ev="reset")], {}, [], 0
        for f in glob.glob(f"{SCRATCH}/lock*/*") + glob.glob(f"{SCRATCH}/buf/*") + glob.glob(f"{SCRATCH}/sock/*"): os.unlink(f)
        self.queued = 0
        try:
            for s in h["ops"]: self.do(s)
            for p in list(self.ps.values()): self.settle(p, 5)
        finally:
            for g in self.extra:
                try: os.kill(g, signal.SIGKILL)
                except ProcessLookupError: pass
            for p in LIVE: p.close()
            LIVE.clear()

    def emit(self, **e): self.ev.append(e)

    def settle(self, p, t=3):
        if p.state not in ("going",): return
        m = p.hear(t)
        if m is None:
            WAITS[0] += 1
            if t >= 5: self.emit(ev="refused", p=p.name, x="hangs", touched=[]); p.state = "refused"
            return                       # waits for somebody: asked again later
        if m[0] == "P": p.state = "paused"
        elif m[0] == "U": p.state = "up"; self.lines = max(self.lines, m[1]); self.emit(ev="up", p=p.name)
        elif m[0] == "R": p.state = "refused"; self.emit(ev="refused", p=p.name, x=m[1], touched=m[2])
        elif m[0] == "D": p.state = "refused"; p.reap(); self.emit(ev="refused", p=p.name, x="died", touched=[])

    def do(self, s):
        o, a = s[0], s[1:]
        if o == "file":
            v = a[0]
            if v is not None:
                b = v.encode("latin1")
                with open(LOCK, "wb") as f: f.write(b)
        elif o in ("start", "prep"):                     # start name target [key]
            name, to, key = a[0], a[1], (a[2] if len(a) > 2 else None)
            p = Proc(name, key); self.ps[name] = p; LIVE.append(p)
            k = "|".join(key) if key else "locked|0|lock"
            if o == "prep":                              # its process id is known before it starts: somebody else's lock holds it
                with open(LOCK, "w") as f: f.write(f"{p.pid}\n")
            self.emit(ev="begin", p=name, k=k)
            p.tell("go", to); p.state = "going"; self.settle(p)
        elif o == "livepid":
            with open(LOCK, "w") as f: f.write(f"{os.getpid()}\n")
        elif o == "cont":
            p = self.ps[a[0]]
            if p.state == "paused": p.tell("go", a[1]); p.state = "going"; self.settle(p)
            elif p.state == "going": self.settle(p)
        elif o == "end":                                 # end name how
            p, how = self.ps[a[0]], a[1]
            if p.state == "gone" : return
            if p.state != "up" and how not in ("kill", "zombie"): how = "kill"
            if how in ("exit", "quit", "raise"): p.tell(how); p.reap()
            elif how == "fork":
                p.tell("fork"); m = p.hear(5)
                if m and m[0] == "F": self.extra.append(m[1])
                os.kill(p.pid, signal.SIGKILL); p.reap()
            elif how == "kill": os.kill(p.pid, signal.SIGKILL); p.reap()
            else:
                os.kill(p.pid, signal.SIGKILL); os.waitid(os.P_PID, p.pid, os.WEXITED | os.WNOWAIT)
            p.state = "gone"; self.emit(ev="gone", p=p.name)
        elif o == "serve":
            p = self.ps[a[0]]
            if p.state != "up": return
            p.tell("serve"); self.sockp = f"{SCRATCH}/sock/locked_0.uds.sock"; end = time.time() + 10
            while time.time() < end:
                try:
                    for n in range(3): ask(self.sockp, "x.buf", dict(n=n)); self.queued += 1
                    break
                except OSError: time.sleep(0.01)
        elif o == "alive":
            p = self.ps[a[0]]
            if p.state != "up" or not self.queued: return
            try:
                r = ask(self.sockp, "eco.buffered_handler.data", dict(queue_route_key="x.buf"))
                q = r["data"]["queue_data"]["database_sizes"]
                ok, x = int(q["pending"] in (self.queued, self.queued - 1)), json.dumps(q)     # one may be in the handler's hands
            except Exception as e: ok, x = 0, repr(e)
            self.emit(ev="alive", p=p.name, ok=ok, x=x)
        elif o == "term":
            p = self.ps[a[0]]
            if p.state != "up": return
            os.kill(p.pid, signal.SIGTERM); p.reap(); p.state = "gone"; self.emit(ev="gone", p=p.name)

out, lines = [], 0
for h in PAYLOAD["hist"]:
    r = Run(h); out.append(r.ev); lines = max(lines, r.lines)
    if WAITS[0] > 8: break              # starts that do not decide: seen often enough
result(dict(traces=out, lines=lines))
