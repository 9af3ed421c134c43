"""Lives of the puppet application, ended by signals at any line of its code, failing tasks and failing servers, with
clients in every state; then started again."""
import os
os.environ.update(ECOENV_STAT_GP="100000")
import drv, sys, signal, socket, time, threading
from drv import PAYLOAD, SCRATCH, result
HOST = f"127.{64 + (os.getpid() >> 8) % 60}.{os.getpid() % 256}.5"; PORT = 22001
if PAYLOAD["no"] not in ("tcp", "both"): os.environ["ECOENV_TCP_PUPPET_0"] = f"{HOST}:{PORT}"
if PAYLOAD["no"] not in ("udp", "both"): os.environ["ECOENV_UDP_PUPPET_0"] = f"{HOST}:{PORT + 1}"
from puppet import *
import puppet
SIG = dict(TERM=signal.SIGTERM, INT=signal.SIGINT, HUP=signal.SIGHUP)
BASE = os.path.dirname(os.path.abspath(AB.__file__)) + os.sep

class LChild(Child):
    def build(self):
        super().build()
        @endpoint("ctl.big", Ctl)
        async def big(dto: Ctl):
            return CtlOut(out="x" * int(dto.arg or 300000))
        @endpoint("ctl.wait", Ctl)
        async def wait(dto: Ctl):
            await asyncio.sleep(dto.arg); return CtlOut()
    def run2(self, plan):
        me = self
        class Puppet(ApplicationBase):
            async def setup_tasks(s, tasks):
                if plan.get("task") == "setup": raise RuntimeError("setup_tasks failed")
                me.fatal = asyncio.get_running_loop().create_future()
                async def waiter():
                    await me.fatal
                    raise RuntimeError("background task failed")
                tasks.append(asyncio.create_task(waiter()))
                async def first(): raise RuntimeError("failed at once")
                if plan.get("task") == "first": tasks.append(asyncio.create_task(first()))
                async def short(): return 1
                tasks.append(asyncio.create_task(short()))
        self.build()
        if plan.get("line") is not None: self.arm_line(plan)
        app = Puppet()
        with app as x:
            if plan.get("body") == "before": raise ValueError("body")
            if plan.get("body") == "nostart": return
            x.start()
            if plan.get("body") == "after": raise ValueError("body")
        sys.monitoring.set_events(sys.monitoring.DEBUGGER_ID, 0) if plan.get("line") is not None else None
    def arm_line(self, plan):
        st = dict(n=0, left=list(plan["sigs"]), at=plan["line"]); eko = plan.get("scope") != "all"; me = self
        if plan.get("armed") in ("late", "loop", "once"): st["at"] = None          # counts from ctl.arm2, or the start of the loop, on
        @endpoint("ctl.line", Ctl)
        async def arm2(dto: Ctl):
            st["n"] = 0; st["at"] = plan["line"]; return CtlOut()
        here = os.path.dirname(os.path.abspath(__file__)) + os.sep; M = sys.monitoring; T = M.DEBUGGER_ID
        def line(code, no):
            f = code.co_filename
            if f.startswith(here) or not (f.startswith(BASE) if eko else not f.startswith("<")): return M.DISABLE
            if code.co_name == "_run_once" and plan.get("armed") == "once" and not me.quiet: st["n"] = 0; st["at"] = plan["line"]; plan["armed"] = ""
            if f == AB.__file__:            # not before there are handlers for the signals
                if code.co_name == "__setup_signal_handlers": me.quiet = True
                elif code.co_name in ("start", "__start", "__exit__"):
                    me.quiet = False
                    if code.co_name == "start" and plan.get("armed") == "loop": st["n"] = 0; st["at"] = plan["line"]; plan["armed"] = ""
            if st["at"] is not None and not me.quiet:
                st["n"] += 1
                if st["n"] >= st["at"] and st["left"]:
                    st["at"] = st["n"] + plan.get("gap", 1); s = st["left"].pop(0)
                    me.emit(e="sig", s=s, at=f"{os.path.basename(f)}:{no}")
                    os.kill(os.getpid(), SIG[s])
        self.quiet = True
        M.use_tool_id(T, "life"); M.register_callback(T, M.events.LINE, line); M.set_events(T, M.events.LINE)

class LApp(App):
    def start(self, plan):
        sys.stdout.flush(); sys.stderr.flush(); self.sock = None; self.blocker = None
        try: os.unlink(SOCK)
        except OSError: pass
        if plan.get("bind") == "uds": os.mkdir(SOCK)
        if plan.get("bind") == "tcp": b = self.blocker = socket.socket(); b.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); b.bind((HOST, PORT)); b.listen(1)
        if plan.get("bind") == "udp": b = self.blocker = socket.socket(type=socket.SOCK_DGRAM); b.bind((HOST, PORT + 1))
        seed = self.rng.random()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                random.seed(seed)
                n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
                if self.blocker: self.blocker.close()
                LChild(self.conf, self.inc * 1000).run2(plan)
                rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                os._exit(rc)
        self.inc += 1
        end = time.time() + 20
        while time.time() < end:
            try:
                self.sock = self.connect(); return "up"
            except OSError:
                x = self.poll()
                if x: return x
                time.sleep(0.002)
        self.stop(); return "never up"
    def poll(self):
        if not self.pid: return "gone"
        p, st = os.waitpid(self.pid, os.WNOHANG)
        if not p: return None
        self.pid = 0; self.close()
        if os.WIFSIGNALED(st): return f"signal {os.WTERMSIG(st)}"
        return "exit" if os.WEXITSTATUS(st) == 0 else f"exit {os.WEXITSTATUS(st)}"
    def said(self):
        try: return open(f"{SCRATCH}/child.err", errors="replace").read()[-1500:]
        except OSError: return ""
    def unblock(self):
        if self.blocker: self.blocker.close(); self.blocker = None
        if os.path.isdir(SOCK): os.rmdir(SOCK)
    def wait2(self, timeout=12):
        end = time.time() + timeout
        while time.time() < end:
            x = self.poll()
            if x: return x
            time.sleep(.002)
        self.stop(); return f"still running after {timeout}s"

class Run:
    def __init__(s, h):
        s.h, s.conf = h, {c["r"]: c for c in h["conf"]}
        s.a = LApp(h["conf"], random.Random(h["seed"])); s.tr = [dict(ev="reset")]; s.clients = []; s.where = []
    def drain(s):
        for e in s.a.events():
            if e["e"] in ("st", "fin"): s.tr.append(dict(ev=e["e"], r=e["r"], id=f"{e['r']}:{e['k']}", o=e.get("o", "")))
            if e["e"] == "sig": s.where.append(e["at"])
    def mroute(s, r, n):
        return (f"eco.buffered_handler.{n}" if s.conf[r]["kind"] == "ep" else f"eco.buffered_sender.{n}")
    def conn(s, t):
        try:
            if t == "uds":
                k = socket.socket(socket.AF_UNIX); k.settimeout(5); k.connect(SOCK)
            else:
                k = socket.socket(); k.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096); k.settimeout(5); k.connect((HOST, PORT))
            s.clients.append(k); return k
        except OSError: return None
    def line(s, route, data): return (json.dumps(dict(route_key=route, span_key=KEYJ[399], data=data)) + "\n").encode()
    def do(s, op):
        n, a = op[0], s.a
        if n == "acc":
            r, k = op[1], op[2]; i = f"{r}:{k}"; s.tr.append(dict(ev="sub", r=r, id=i))
            if s.conf[r]["kind"] == "snd": st, d, ok = a.call("ctl.enqueue", dict(route=r, arg=[k, k]))
            else: st, d, ok = a.call(ROUTE(r), fields(k), k)
            s.tr.append(dict(ev="acc", id=i, st=9999 if st == -2 else st))
        elif n == "auto": a.call("ctl.auto", dict(route=op[1], arg=op[2]))
        elif n == "rel": a.call("ctl.release", dict(route=op[1], arg=op[2]))
        elif n == "settle": a.call("ctl.settle", dict(arg=.3))
        elif n == "pause": a.call(s.mroute(op[1], "processing.pause" if s.conf[op[1]]["kind"] == "ep" else "send_process.pause"), dict(queue_route_key=ROUTE(op[1])))
        elif n == "line": a.call("ctl.line", {})
        elif n in ("spin", "wait"):
            k = s.conn(op[2])
            if k:
                try: k.sendall(s.line(f"ctl.{n}", dict(arg=op[1])))
                except OSError: pass
                if n == "spin":
                    t = time.time() + 2
                    while time.time() < t and not any(e["e"] == "spin" for e in s.peek()): time.sleep(.005)
                else: time.sleep(.02)
        elif n == "idle": s.conn(op[1])
        elif n == "half":
            k = s.conn(op[1])
            if k:
                try: k.sendall(s.line(ROUTE(op[2]), dict(data=1))[:-9])
                except OSError: pass
        elif n == "clog":                       # asks for much and reads nothing
            k = s.conn(op[1])
            if k:
                k.settimeout(.3)
                try:
                    for _ in range(40): k.sendall(s.line("ctl.big", {}))
                except OSError: pass
                time.sleep(.1)
        elif n == "linger":                     # asks for some, reads nothing, says it is done
            k = s.conn(op[1])
            if k:
                k.settimeout(.3)
                try:
                    for _ in range(op[2]): k.sendall(s.line("ctl.big", dict(arg=10000)))
                    k.shutdown(socket.SHUT_WR)
                except OSError: pass
                time.sleep(.1)
        elif n == "udp":
            k = socket.socket(type=socket.SOCK_DGRAM); s.clients.append(k)
            try: k.sendto(s.line("ctl.wait", dict(arg=op[1])), (HOST, PORT + 1))
            except OSError: pass
        elif n == "sleep": time.sleep(op[1] / 1000)
    def peek(s):
        try:
            with open(EVFILE, "rb") as f: f.seek(s.a.evpos); return [json.loads(x) for x in f.read().splitlines() if x.endswith(b"}")]
        except (FileNotFoundError, ValueError): return []
    def report(s, ev):
        err, n = {}, {}
        st, d, ok = s.a.call("ctl.settle", dict(arg=.3)); busy = d["out"][0] if st == 0 else {}
        for r in s.conf:
            st, d, ok = s.a.call(s.mroute(r, "data"), dict(queue_route_key=ROUTE(r)))
            try: n[r] = d["queue_data"]["database_sizes"]["pending"] + len(busy.get(r, []))
            except Exception: n[r] = 9999
            st, d, ok = s.a.call(s.mroute(r, "errors.get_first_10"), dict(queue_route_key=ROUTE(r)))
            err[r] = [f"{r}:{kid(x)}" for x in d["queue_data"]] if st == 0 and isinstance(d["queue_data"], list) else ["?"]
        s.drain(); s.tr.append(dict(ev=ev, err=err, n=n))
        return n
    def run(s):
        a = s.a
        try:
            for n, life in enumerate(s.h["lives"]):
                p = life.get("plan", {})
                x = a.start(p)
                if x == "up":
                    if n and (not p or p.get("armed") == "late"): s.report("boot")
                    for op in life["ops"]:
                        s.do(op); s.drain()
                    end = life["end"]
                    if end in SIG:
                        try: os.kill(a.pid, SIG[end])
                        except ProcessLookupError: pass
                    elif end == "double":
                        for q in ("TERM", "INT", "HUP"):
                            try: os.kill(a.pid, SIG[q])
                            except ProcessLookupError: pass
                            time.sleep(a.rng.choice([0, .0005, .003]))
                    elif end == "raise": a.call("ctl.raise", {})
                    elif end == "line":
                        x = None; t = time.time() + 2
                        while time.time() < t and not x: x = a.poll(); time.sleep(.002)
                        if not x: os.kill(a.pid, SIG["TERM"])
                        else: a.pid = 0
                    if not (end == "line" and x): x = a.wait2()
                elif x == "never up": pass
                s.drain(); a.unblock(); a.close()
                for k in s.clients: k.close()
                s.clients = []
                s.tr.append(dict(ev="down", x=x if x == "exit" else f"{x}: {a.said()}"))
                if not s.tr[-1]["x"] == "exit": break
            if s.tr[-1].get("x", "exit") == "exit":
                x = a.start({})
                if x != "up": s.tr.append(dict(ev="dead", x=x))
                else:
                    s.report("boot")
                    for r in s.conf:
                        a.call("ctl.auto", dict(route=r, arg=["ok"] * 300)); a.call("ctl.release", dict(route=r, arg="ok"))
                    t = time.time() + 10
                    while time.time() < t:
                        n = {r: 0 for r in s.conf}
                        st, d, ok = a.call("ctl.settle", dict(arg=.5))
                        if st == 0 and not d["out"][1] and not any(d["out"][0].values()): break
                    s.drain(); s.report("end")
        finally:
            a.unblock(); a.stop()
            for k in s.clients: k.close()
        return s.tr

out, where, slow = [], [], 0
T0 = time.time()
for h in PAYLOAD["hist"]:
    if time.time() - T0 > PAYLOAD["budget"]: break
    r = Run(h); out.append(r.run()); where += r.where
result(dict(traces=out, where=where))
