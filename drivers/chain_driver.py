"""Two real applications, a and b, a proxy that does anything to what passes between them, and terminations of both."""
import json, os, sys, time, random, signal, socket, subprocess, asyncio, uuid, shutil
PAYLOAD = json.load(sys.stdin); SCRATCH = PAYLOAD["scratch"]; HERE = os.path.dirname(os.path.abspath(__file__))
_p = os.getpid(); HOST = f"127.{5 + _p % 240}.{(_p >> 8) % 256}.{(_p >> 16) % 250 + 4}"
def skey(k): return dict(trace_id=str(uuid.UUID(int=(k // 2) * 7919 + 5)), span_id=f"{(k % 2) * (1 << 63) + (k // 4) * 3 + 1:016x}")
KEYS = {f"{skey(k)['trace_id']}:{skey(k)['span_id']}": k for k in range(1, 200)}
def kid(s): return KEYS.get(f"{s['trace_id']}:{s['span_id']}", 0)
sys.path.insert(0, HERE)
def value(k):
    return [{"n": k}, {"n": k, "u": "\u00e9\U0001f600\"\n", "z": None}, {"n": k, "l": [1, {"x": [k]}], "f": 0.5}, {"n": k, "s": "y" * 2000}][k % 4]
VALUES = [value(k) for k in range(1, 200)]
now = lambda: int(time.monotonic() * 1000000)      # the same clock everywhere; milliseconds in the trace

class Proxy:
    """Forked: everything between a and b."""
    def __init__(s, sc, path, front, back, ctl):
        s.sc, s.front, s.back = sc, front, back
        s.rng = random.Random(sc["seed"] + 1); s.calm = False
        s.f = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        s.ctl = ctl; s.server = None; s.x = 0
    def ev(s, **e): os.write(s.f, (json.dumps(dict(e, ms=now())) + "\n").encode())
    def fault(s): return "pass" if s.calm or s.rng.random() >= s.sc["faults"] else s.rng.choice(s.sc["kinds"])
    def seen(s, line):
        try: q = json.loads(line); k = kid(q["span_key"]); d = q["data"]["data"]; v = d["n"] if d in VALUES and q["route_key"] == "b.in" else -1
        except Exception: k, v = 0, -1
        s.x += 1; s.ev(ev="fwd", k=k, v=v, x=s.x); return k, s.x
    def answer(s, k, line):
        try: r = json.loads(line); st = r["status"] if kid(r["span_key"]) == k else 1
        except Exception: st = 1
        s.ev(ev="rsp", k=k, st=st); return st
    # ---- streams
    async def conn(s, ar, aw):
        br = bw = None
        try:
            while True:
                line = await ar.readline()
                if not line.endswith(b"\n"): return
                enq = line == b"\x05\n"
                k, xn = (0, 0) if enq else s.seen(line)
                x = "pass" if enq else s.fault()
                if x != "pass": s.ev(ev="flt", k=k, x=x)
                if x == "dropreq": continue
                if x == "cutbefore": return
                if x == "slowreq": await asyncio.sleep(s.sc["timeout"] * 1.4)
                try:
                    if bw is None: br, bw = await (asyncio.open_unix_connection(s.back[0]) if len(s.back) == 1 else asyncio.open_connection(*s.back))
                    if not enq: s.ev(ev="tob", k=k)
                    bw.write(line); await bw.drain()
                    r = await asyncio.wait_for(br.readline(), 5)
                except (OSError, asyncio.TimeoutError): r = b""
                if not r.endswith(b"\n"):
                    s.ev(ev="flt", k=k, x="noanswer"); return
                st = 0 if enq else s.answer(k, r)
                if x == "droprsp": continue
                if x == "cutafter": return
                if x == "delay": await asyncio.sleep(s.sc["timeout"] * 1.4)
                if x == "partial": aw.write(r[:len(r) // 2]); await aw.drain(); return
                if not enq: s.ev(ev="del", k=k, st=st, x=xn)
                aw.write(r); await aw.drain()
        except OSError: pass
        finally:
            for w in (aw, bw):
                if w is not None: w.close()
    # ---- datagrams
    class D(asyncio.DatagramProtocol):
        def __init__(s, cb): s.cb = cb
        def connection_made(s, tr): s.tr = tr
        def datagram_received(s, d, a): s.cb(d, a)
        def error_received(s, e): pass
    def dgram(s, d, a): asyncio.get_running_loop().create_task(s.one(d, a))
    async def one(s, d, a):
        (k, xn), x = s.seen(d), s.fault()
        if x in ("cutbefore", "cutafter", "partial"): x = {"cutbefore": "dropreq", "cutafter": "droprsp", "partial": "twice"}[x]
        if x != "pass": s.ev(ev="flt", k=k, x=x)
        if x == "dropreq": return
        if x == "slowreq": await asyncio.sleep(s.sc["timeout"] * 1.4)
        f = asyncio.get_running_loop().create_future()
        tr, _ = await asyncio.get_running_loop().create_datagram_endpoint(lambda: s.D(lambda d, a: f.done() or f.set_result(d)), remote_addr=tuple(s.back))
        s.ev(ev="tob", k=k); tr.sendto(d)
        try: r = await asyncio.wait_for(f, 4)
        except asyncio.TimeoutError: s.ev(ev="flt", k=k, x="noanswer"); return
        finally: tr.close()
        st = s.answer(k, r)
        if x == "droprsp": return
        if x == "delay": await asyncio.sleep(s.sc["timeout"] * 1.4)
        if not s.server: s.ev(ev="flt", k=k, x="nobody"); return
        s.ev(ev="del", k=k, st=st, x=xn); s.server.sendto(r, a)
        if x == "twice": s.server.sendto(r, a)
    async def listen(s):
        if s.server: return
        if s.sc["client"] == "udp": s.server, _ = await asyncio.get_running_loop().create_datagram_endpoint(lambda: s.D(s.dgram), local_addr=tuple(s.front))
        elif len(s.front) == 1: s.server = await asyncio.start_unix_server(s.conn, s.front[0])
        else: s.server = await asyncio.start_server(s.conn, *s.front)
    async def main(s):
        loop = asyncio.get_running_loop(); await s.listen(); s.ctl.setblocking(False)
        while True:
            s.ctl.setblocking(False)
            c = (await loop.sock_recv(s.ctl, 100)).decode()
            if c == "calm": s.calm = True
            if c in ("calm", "listen"): await s.listen(); s.ev(ev="listen")
            if c == "refuse" and s.server:
                s.ev(ev="refuse")
                s.server.close(); s.server = None
                if len(s.front) == 1:
                    try: os.unlink(s.front[0])
                    except OSError: pass
            if c in ("quit", ""): os._exit(0)
            await loop.sock_sendall(s.ctl, b"k")

SIG = dict(TERM=signal.SIGTERM, INT=signal.SIGINT, HUP=signal.SIGHUP)
class Run:
    def __init__(s, sc, n):
        s.sc, s.d = sc, f"{SCRATCH}/h{n}"; os.makedirs(s.d); s.ev = []; s.life = dict(a=0, b=0); s.p = {}; s.keys = []
        c = sc["client"]; port = lambda i: 21000 + (n % 500) * 8 + i
        s.front = [f"{s.d}/p.sock"] if c in ("uds", "tuds") else [HOST, port(0)]
        s.back = [f"{s.d}/b/chain_b_0.uds.sock"] if c in ("uds", "tuds") else [HOST, port(1)]
        os.makedirs(f"{s.d}/a"); os.makedirs(f"{s.d}/b")
        common = dict(keys=KEYS, values=VALUES, events=f"{s.d}/ev", calm=f"{s.d}/calm", seed=sc["seed"])
        s.conf = dict(a=dict(common, role="a", dir=f"{s.d}/a", to=s.front, **{x: sc[x] for x in ("client", "tries", "timeout", "wait", "aroute")}, **sc["a"]),
                      b=dict(common, role="b", dir=f"{s.d}/b", **sc["b"]))
        if c in ("tcp", "ttcp"): s.conf["b"]["tcp"] = f"{s.back[0]}:{s.back[1]}"
        if c == "udp": s.conf["b"]["udp"] = f"{s.back[0]}:{s.back[1]}"
        for r in "ab": json.dump(s.conf[r], open(f"{s.d}/{r}.json", "w"))
    def note(s, **e): s.ev.append(dict(e, ms=now()))
    def call(s, r, route, data, k=None, t=10):
        try:
            c = socket.socket(socket.AF_UNIX); c.settimeout(t); c.connect(f"{s.d}/{r}/chain_{r}_0.uds.sock"); f = c.makefile("rwb")
            f.write((json.dumps(dict(route_key=route, span_key=skey(k) if k else dict(trace_id=str(uuid.uuid4()), span_id="1" * 16), data=data)) + "\n").encode()); f.flush()
            q = json.loads(f.readline()); f.close(); c.close()
            return q["status"], q["data"]
        except (OSError, ValueError): return -1, None
    def boot(s, r):
        s.life[r] += 1
        try: os.unlink(f"{s.d}/{r}/chain_{r}_0.uds.sock")
        except OSError: pass
        s.p[r] = subprocess.Popen([sys.executable, f"{HERE}/chain_app.py"], env=dict(os.environ, CHAIN=f"{s.d}/{r}.json"), stdin=subprocess.DEVNULL,
                                  stdout=open(f"{s.d}/out", "a"), stderr=subprocess.STDOUT, cwd=f"{s.d}/{r}")
    def ready(s, r):
        end = time.time() + 40
        while time.time() < end and s.p[r].poll() is None:
            if s.call(r, "eco.statistics.get", dict(type="current"))[0] == 0:
                s.note(ev="up", x=r); return True
            time.sleep(0.02)
        s.note(ev="dead", x=f"{r} does not start: {s.p[r].poll()}"); return False
    def term(s, r, sig):
        s.note(ev="term", x=r); s.p[r].send_signal(SIG[sig])
        try: rc = s.p[r].wait(40)
        except subprocess.TimeoutExpired: s.p[r].kill(); s.p[r].wait(); rc = "hang"
        s.note(ev="down", x=r)
        if rc != 0: s.note(ev="dead", x=f"{r} ended with {rc}")
        return rc == 0
    def tell(s, c): s.ctl.send(c.encode()); s.ctl.recv(10)
    def mgmt(s, r, what, q): return s.call(r, f"eco.buffered_{what}", dict(queue_route_key=q))
    QS = lambda s: [("a", "handler", s.sc["aroute"]), ("a", "sender", "b.in"), ("b", "handler", "b.in")]
    def sizes(s):
        out = []
        for r, w, q in s.QS():
            st, d = s.mgmt(r, f"{w}.data", q)
            out.append([d["queue_data"]["database_sizes"]["pending"], d["queue_data"]["database_sizes"]["error"]] if st == 0 else [-1, -1])
        return out
    def errors(s):
        out = []
        for r, w, q in s.QS():
            st, d = s.mgmt(r, f"{w}.errors.get_first_10", q)
            out.append([KEYS.get(x, 0) for x in d["queue_data"]] if st == 0 else [])
        return out
    def still(s, limit=25):
        """Until nothing is pending and nothing has happened for a while, or the time is up while nothing happens."""
        last, since, t0 = None, time.time(), time.time()
        while time.time() - t0 < limit * 4:
            z = s.sizes(); n = os.path.getsize(f"{s.d}/ev"), os.path.getsize(f"{s.d}/pev"), str(z)
            if n != last: last, since = n, time.time()
            if all(p == 0 for p, e in z) and time.time() - since > max(0.5, s.sc["timeout"] * 1.6 + 0.2): return z
            if time.time() - since > limit: return z
            time.sleep(0.05)
        return z
    def go(s):
        x, y = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET); s.ctl = x
        pid = os.fork()
        if pid == 0:
            try: x.close(); asyncio.run(Proxy(s.sc, f"{s.d}/pev", s.front, s.back, y).main())
            except BaseException:
                import traceback; traceback.print_exc()
            os._exit(1)
        y.close(); open(f"{s.d}/ev", "a").close(); open(f"{s.d}/pev", "a").close()
        k = 0
        try:
            s.boot("b"); s.boot("a")
            if not s.ready("b") or not s.ready("a"): return
            for op in s.sc["ops"]:
                n = op[0]
                if n == "enq":
                    for _ in range(op[1]):
                        k += 1; st, d = s.call("a", s.sc["aroute"], dict(data=value(k)), k); s.note(ev="enq", k=k, st=st)
                elif n == "term":
                    if not s.term(op[1], op[2]): return
                    time.sleep(op[3]); s.boot(op[1])
                    if not s.ready(op[1]): return
                elif n == "both":
                    if not s.term("a", op[1]) or not s.term("b", op[1]): return
                    s.boot("b"); s.boot("a")
                    if not s.ready("b") or not s.ready("a"): return
                elif n == "sleep": time.sleep(op[1])
                elif n in ("refuse", "listen"): s.tell(n)
                elif n == "busy": s.mgmt("b", "handler.receiving." + op[1], "b.in")
                elif n == "hold": s.mgmt("b", "handler.processing." + op[1], "b.in")
                elif n == "pause": s.mgmt("a", "sender.send_process." + op[1], "b.in")
                elif n == "rep":
                    for r, w, q in s.QS(): s.note(ev="rep"); s.mgmt(r, f"{w}.errors.reprocess.all", q)
            for r, w, q in s.QS():
                for z in (("receiving.unpause", "processing.unpause") if w == "handler" else ("send_process.unpause",)): s.mgmt(r, f"{w}.{z}", q)
            s.tell("listen"); z = s.still()
            s.note(ev="mid", sz=z, err=s.errors())
            s.tell("calm"); open(f"{s.d}/calm", "w").close(); time.sleep(s.sc["timeout"] * 1.5)
            for _ in range(3):                       # what failed for a reason gets through now
                if not any(e for p, e in z): break
                s.note(ev="rep")
                for r, w, q in s.QS(): s.mgmt(r, f"{w}.errors.reprocess.all", q)
                z = s.still()
            s.note(ev="end", sz=z, err=s.errors())
        finally:
            for p in s.p.values():
                if p.poll() is None: p.kill(); p.wait()
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid, 0); x.close()
    def trace(s):
        s.go()
        for f in ("ev", "pev"):
            s.ev += [json.loads(l) for l in open(f"{s.d}/{f}")] if os.path.exists(f"{s.d}/{f}") else []
        s.ev.sort(key=lambda e: e["ms"])
        t0 = s.ev[0]["ms"] if s.ev else 0
        for e in s.ev: e["ms"] = (e["ms"] - t0) // 1000
        out = open(f"{s.d}/out").read()[-1500:] if os.path.exists(f"{s.d}/out") else ""
        for e in s.ev:
            if e["ev"] == "dead": e["x"] += " " + out
        shutil.rmtree(s.d, ignore_errors=True)
        return [dict(ev="reset", win=int(s.sc["timeout"] * 400), ms=0)] + s.ev
res = dict(traces=[Run(sc, i).trace() for i, sc in enumerate(PAYLOAD["scenarios"])])
tmp = f"{SCRATCH}/result.tmp"; json.dump(res, open(tmp, "w")); os.rename(tmp, f"{SCRATCH}/result.json")
