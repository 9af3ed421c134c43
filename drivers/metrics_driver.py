"""The real Prometheus bridge on virtual time, among scripted services of this machine, pushing to a gateway that keeps what it gets."""
import json, os, sys
sys.dont_write_bytecode = True
PAYLOAD = json.load(sys.stdin); SCRATCH = PAYLOAD["scratch"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import asyncio, socket, threading, http.server, time, re
import pydantic, prometheus_client, prometheus_client.parser as parser
import vloop
_p = os.getpid(); LOW = f"127.{3 + _p % 240}.{(_p >> 8) % 256}.{(_p >> 16) % 250 + 3}"

class Loop(vloop.VLoop):
    """No virtual time passes while a thread of the application is at work."""
    busy, base = 0, ()
    def __init__(self):
        super().__init__(); sel, me = self._selector, self
        orig = sel.select
        def select(timeout=None):
            if not me.busy:
                # something of a poll is under way: give the kernel its time before the clock moves
                if timeout != 0 and any(fd not in me.base for fd in sel.get_map()):
                    ev = super(type(sel), sel).select(0.005)
                    if ev: return ev
                return orig(timeout)
            return super(type(sel), sel).select(0 if timeout == 0 else 0.002)
        sel.select = select
    def run_in_executor(self, ex, f, *a):
        fut = super().run_in_executor(ex, f, *a); self.busy += 1
        fut.add_done_callback(lambda _: setattr(self, "busy", self.busy - 1))
        return fut
class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        loop = Loop(); loop.create_task(WORLD.start(loop)); return loop

class World:
    def __init__(self, h):
        self.h, self.k, self.tr, self.polls, self.st = h, 0, [], {}, {}
        self.loop, self.last, self.gate = None, None, threading.Event()
    def ev(self, ev, **k): self.tr.append(dict(ev=ev, **k))
    # ------------------------------------------------------------ services
    async def start(self, loop):
        self.loop = loop; self.apply()
        for a, s in self.h["svcs"].items():
            await self.up(a)
        loop.base = set(loop._selector.get_map())
        self.last = vloop.CLOCK.now
    def mine(self):
        out = set()
        for x in SOCKS.values():
            if "srv" in x and hasattr(x["srv"], "sockets"): out |= {q.fileno() for q in x["srv"].sockets}
        return out
    def apply(self):
        for a in self.h["svcs"]: self.st[a] = self.h["cycles"][self.k][a]; self.polls[a] = 0
    async def up(self, a):
        s = self.h["svcs"][a]; down = self.st[a]["kind"] == "refuse"
        for p in s["protos"]:
            k = (a, p); old = SOCKS[k].pop("srv", None)
            if p == "UDP":
                if not old:
                    t, _ = await self.loop.create_datagram_endpoint(lambda a=a: Dg(self, a), sock=SOCKS[k]["sock"]); SOCKS[k]["srv"] = t
                else: SOCKS[k]["srv"] = old
                continue
            if old: old.close()
            if p == "UDS":
                try: os.unlink(SOCKS[k]["path"])
                except FileNotFoundError: pass
                if not down: SOCKS[k]["srv"] = await asyncio.start_unix_server(lambda r, w, a=a: self.conn(r, w, a), SOCKS[k]["path"])
            elif not down:
                if old: SOCKS[k]["sock"] = sock(socket.SOCK_STREAM, SOCKS[k]["port"])
                SOCKS[k]["srv"] = await asyncio.start_server(lambda r, w, a=a: self.conn(r, w, a), sock=SOCKS[k]["sock"])
            elif old: SOCKS[k]["sock"] = sock(socket.SOCK_STREAM, SOCKS[k]["port"])
    async def answer(self, a, raw):
        x = self.st[a]
        try: q = json.loads(raw); good = q["route_key"] == "eco.statistics.get" and q["data"] == dict(type="gathered")
        except Exception: good, q = False, {}
        self.polls[a] += 1
        if not good: self.polls[a] += 100
        kind = x["kind"]
        if x.get("slow"): await asyncio.sleep(x["slow"])
        if kind in ("hang", "refuse"): return None
        if kind == "close": return b""
        if kind == "garbage": return b"<html>\n"
        sp = q.get("span_key")
        if kind == "status": return (json.dumps(dict(span_key=sp, status=x["code"], data="no")) + "\n").encode()
        return (json.dumps(dict(span_key=sp, status=0, data=x["raw"] if kind == "odd" else dict(statistics=x["stats"]))) + "\n").encode()
    async def conn(self, r, w, a):
        try:
            while True:
                b = await r.readline()
                if not b: break
                out = await self.answer(a, b)
                if out is None: await asyncio.sleep(10 ** 6)
                if not out: break
                w.write(out)
        except Exception: pass
        finally: w.close()
    # ------------------------------------------------------------ gateway
    def pushed(self, path, method, body, ctype):
        """In the gateway's thread: what it got; what it answers; then the next cycle."""
        ms, why = [], ""
        try:
            txt = body.decode(); seen = set(); types = set()
            for line in txt.split("\n"):
                if line.startswith("# TYPE "):
                    n = line.split()[2]
                    if n in types: why = "second TYPE line for " + n
                    types.add(n)
            for f in parser.text_string_to_metric_families(txt):
                for s in f.samples:
                    l = s.labels; key = (s.name, tuple(sorted(l.items())))
                    if key in seen: why = f"series twice: {key}"
                    seen.add(key)
                    if set(l) - {"service", "instance", "group", "endpoint"}: why = f"labels {sorted(l)}"
                    if not re.fullmatch(r"[a-zA-Z_:][a-zA-Z0-9_:]*", s.name): why = "name " + s.name
                    ms.append(dict(m=s.name, svc=l.get("service", ""), inst=l.get("instance", ""), group=l.get("group", ""), ep=l.get("endpoint", ""), val=str(float(s.value))))
        except Exception as e: why = f"unreadable: {type(e).__name__} {e}"
        st = {}
        for a, x in self.st.items():
            st[a] = dict(kind="hang" if x["kind"] == "refuse" and self.h["svcs"][a]["protos"] == ["UDP"] else x["kind"], name=x.get("name", ""), inst=x.get("inst", ""), leaves=x.get("leaves", []), polls=self.polls[a])
        slow = sum(x["kind"] not in ("up", "empty") or x.get("slow", 0) > 0 for x in self.st.values())
        self.ev("cycle", st=st, ms=ms, why=why, path=method + " " + path, dt8=int((vloop.CLOCK.now - self.last) * 8), slack8=8 + 8 * 22 * slow * 3)
        how = self.h["gw"][self.k]; self.k += 1
        if how == "hold": self.hold()
        if self.k >= len(self.h["cycles"]): self.end()
        done = threading.Event()
        async def nxt():
            self.apply()
            for a in self.h["svcs"]: await self.up(a)
            self.loop.base = {fd for fd in self.loop._selector.get_map() if fd in self.loop.base or fd in self.mine()}
            self.last = vloop.CLOCK.now; done.set()
        # while the scraper blocks the loop this runs once the push is answered, before any time passes
        asyncio.run_coroutine_threadsafe(nxt(), self.loop)
        done.wait(0.05)
        return how
    def hold(self):
        """The gateway keeps the scraper waiting: does the application still answer?"""
        ok, box = 0, []
        def ask():
            try:
                s = socket.socket(); s.settimeout(8); s.connect(SELF)
                s.sendall(b'{"span_key":{"trace_id":"12345678-1234-1234-1234-1234567890ab","span_id":"1234567890abcdef"},"route_key":"eco.statistics.get","data":{"type":"current"}}\n')
                b = s.recv(1 << 16)
                if b'"status":0' in b.replace(b" ", b""): box.append(1)
            except OSError: pass
        t = threading.Thread(target=ask); t.start(); t.join(10)
        self.ev("held", ok=int(bool(box)))
    def end(self):
        with open(f"{SCRATCH}/out.tmp", "w") as f: json.dump(self.tr, f)
        os.rename(f"{SCRATCH}/out.tmp", f"{SCRATCH}/out.json")
        os._exit(0)

class Dg(asyncio.DatagramProtocol):
    def __init__(s, w, a): s.w, s.a = w, a
    def connection_made(s, t): s.t = t
    def datagram_received(s, d, addr):
        async def go():
            out = await s.w.answer(s.a, d)
            if out: s.t.sendto(out, addr)
        s.w.loop.create_task(go())

# ports of its own, below those the system hands out; the lease ends with the process
SOCKS = {}
LEASE = socket.socket(socket.AF_UNIX)
for SLOT in range(48):
    try: LEASE.bind(f"\0ecosystem-metrics-{SLOT}"); break
    except OSError: pass
else: sys.exit("no free ports")
NEXT = [0]
def port():
    while True:
        NEXT[0] = NEXT[0] % 400 + 1
        n = 12000 + SLOT * 400 + NEXT[0]
        try:
            for k in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                with socket.socket(socket.AF_INET, k) as x: x.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); x.bind(("0.0.0.0", n))
            return n
        except OSError: pass
def sock(kind, port):
    s = socket.socket(socket.AF_INET, kind); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("0.0.0.0", port)); s.setblocking(False)
    return s

def child(h):
    global WORLD
    os.makedirs(f"{SCRATCH}/socks", exist_ok=True)
    for x in ("buf", "log", "lock"): os.makedirs(f"{SCRATCH}/{x}", exist_ok=True)
    for k in list(os.environ):
        if "ECOENV" in k.upper(): del os.environ[k]
    WORLD = World(h)
    host = {}
    try:
        host = dict(HOSTNAME=socket.gethostname(), OWNIP=socket.gethostbyname(socket.gethostname()))
        x = socket.socket(); x.bind((host["OWNIP"], 0)); x.close()
    except OSError: host = {}
    env = {}
    for v in h["vars"]:
        a, p = v["addr"], v["proto"]; k = (a, p)
        if k not in SOCKS:
            if p == "UDS": SOCKS[k] = dict(path=f"{SCRATCH}/socks/" + (f"{'_'.join(v['segs'])}_{v['inst']}.uds.sock" if v["form"] == "DEFAULT" else f"{a}.sock"))
            else:
                n = port(); s = sock(socket.SOCK_STREAM if p == "TCP" else socket.SOCK_DGRAM, n); SOCKS[k] = dict(sock=s, port=s.getsockname()[1])
        if v["host"] in ("HOSTNAME", "OWNIP") and v["host"] not in host: v["host"] = "localhost"
        hn = host.get(v["host"], v["host"])
        if p == "UDS": val = {"ok": SOCKS[k]["path"], "DEFAULT": f"{SCRATCH}/socks/DEFAULT", "empty": ""}[v["form"]]
        else: val = {"ok": f"{hn}:{SOCKS[k]['port']}", "noport": hn, "badport": f"{hn}:http", "empty": ""}[v["form"]]
        env[f"{v['pre']}{p}_{'_'.join(v['segs']).upper()}_{v['uinst']}"] = val
    srv = http.server.ThreadingHTTPServer((LOW, 0), Gw)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    env.update(ECOENV_BUFFER_DIR=f"{SCRATCH}/buf", ECOENV_LOG_DIR=f"{SCRATCH}/log", ECOENV_LOCK_DIR=f"{SCRATCH}/lock", ECOENV_STAT_GP=str(h["gp"]), NO_PROXY="*", no_proxy="*",
               ECOENV_EXTRA_PUSHGATEWAY=h["scheme"] + f"{LOW}:{srv.server_address[1]}" + h["slash"])
    job = "ekosis_prometheus-0"
    if h["job"]: env["ECOENV_EXTRA_JOB_NAME"] = job = h["job"]
    # its own server, on an address that is not one of those that are looked at
    global SELF
    SELF = (LOW, port())
    env["ECOENV_TCP_EKOSIS_PROMETHEUS_0"] = f"{SELF[0]}:{SELF[1]}"
    items = list(env.items()); __import__("random").Random(h["seed"]).shuffle(items); os.environ.update(items)
    WORLD.ev("reset", vars=h["vars"], gp=h["gp"], job="PUT /metrics/job/" + job)
    sys.argv = [f"{SCRATCH}/ekosis_prometheus", "-i", "0", "-lfo"]
    vloop.install()
    asyncio.set_event_loop_policy(Policy())
    from ekosis_prometheus.application import main
    main()

class Gw(http.server.BaseHTTPRequestHandler):
    def do_PUT(s):
        b = s.rfile.read(int(s.headers.get("Content-Length") or 0))
        how = WORLD.pushed(s.path, s.command, b, s.headers.get("Content-Type", ""))
        if how == "drop": s.close_connection = True; s.connection.close(); return
        if how == "junk": s.wfile.write(b"\x00\xff nonsense\r\n\r\n"); s.close_connection = True; return
        s.send_response({"500": 500, "400": 400}.get(how, 202)); s.send_header("Content-Length", "0"); s.end_headers()
    do_POST = do_PUT
    def log_message(s, *a): pass

out = []
for h in PAYLOAD["hists"]:
    for d in ("socks", "buf", "lock"):
        if os.path.isdir(f"{SCRATCH}/{d}"):
            for f in os.listdir(f"{SCRATCH}/{d}"): os.unlink(f"{SCRATCH}/{d}/{f}")
    if os.path.exists(f"{SCRATCH}/out.json"): os.unlink(f"{SCRATCH}/out.json")
    NEXT[0] += 30                                       # other ports than the one before
    pid = os.fork()
    if pid == 0:
        try:
            n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_TRUNC | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
            child(h)
        except BaseException:
            import traceback; traceback.print_exc()
        finally: os._exit(1)
    end = time.time() + 60; why = "ended"
    while not os.waitpid(pid, os.WNOHANG)[0]:
        if time.time() > end: os.kill(pid, 9); os.waitpid(pid, 0); why = "no push for a long time"; break
        time.sleep(0.003)
    try: out.append(json.load(open(f"{SCRATCH}/out.json")))
    except (OSError, ValueError):
        out.append([dict(ev="reset", vars=h["vars"], gp=h["gp"], job=""), dict(ev="dead", why=why + ": " + open(f"{SCRATCH}/child.err").read()[-600:])])
with open(f"{SCRATCH}/result.tmp", "w") as f: json.dump(dict(traces=out), f)
os.rename(f"{SCRATCH}/result.tmp", f"{SCRATCH}/result.json")
