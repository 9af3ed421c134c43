"""A real application with TCP, UDS and UDP servers in a forked process; the driver plays the clients.
Events are a faithful record of what was put on and read from the wire, what the endpoints and middleware saw,
and what the log says; TLC judges them (ServerTrace)."""
import drv, os, sys, json, socket, time, signal, random, select, struct, logging
from drv import PAYLOAD, SCRATCH, payload_value
for s in ("buf", "log", "lock", "sock"): os.makedirs(f"{SCRATCH}/{s}", exist_ok=True)
HOST = f"127.{128 + (os.getpid() >> 8) % 64}.{os.getpid() % 256}.3"
TCP, UDP = 21001, 21002
UDS = f"{SCRATCH}/sock/srv_0.uds.sock"
sys.argv = [f"{SCRATCH}/srv.py", "-i", "0", "-lfo"]
os.environ.update(ECOENV_BUFFER_DIR=f"{SCRATCH}/buf", ECOENV_LOG_DIR=f"{SCRATCH}/log", ECOENV_LOCK_DIR=f"{SCRATCH}/lock",
                  ECOENV_UDS_SRV_0=f"{SCRATCH}/sock/DEFAULT", ECOENV_TCP_SRV_0=f"{HOST}:{TCP}", ECOENV_UDP_SRV_0=f"{HOST}:{UDP}",
                  ECOENV_LOG_BUF_SIZE="0", ECOENV_LOG_MAX_SIZE="1000000000", ECOENV_LOG_LEVEL="info", ECOENV_STAT_GP="100000")
import asyncio
from uuid import UUID
from typing import Any
from pydantic import BaseModel, ValidationError
from ekosis.application_base import ApplicationBase
from ekosis.requests.endpoint import endpoint
from ekosis.requests.buffered_endpoint import buffered_endpoint
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.clients import ClientBase
from ekosis.middleware.middleware_base import MiddlewareBase
from ekosis.middleware.manager import MiddlewareManager
from ekosis.data_transfer_objects import SpanKey, SpanId, EmptyDto, RequestDTO
import ekosis.exceptions as EX
log = logging.getLogger()
EVFILE, LOGFILE = f"{SCRATCH}/events", f"{SCRATCH}/log/srv-0.log"

def key(i): return SpanKey(trace_id=UUID(int=(i % 5) * 1000003 + 17 * (i // 5) + 1), span_id=SpanId(int_=i * 3 + (1 << 63) * (i % 2)))
def keyj(i): return json.loads(key(i).model_dump_json())
KEYS = {}
for i in range(1, 3000): KEYS[str(key(i))] = i
LOGKEYS = {(key(i).trace_id.hex, key(i).span_id.hex): i for i in range(1, 3000)}
def kid(k): return 0 if k is None else KEYS.get(str(k), -1)

class Msg(BaseModel):
    id  : int
    data: Any = None
    ch  : list[int] = []
    arg : Any = None
    z   : int = 0
    def __len__(self): return len(self.ch)          # a DTO may well be falsy
class Echo(BaseModel):
    id  : int
    data: Any = None
    rs  : list[int] = []
    def __len__(self): return len(self.rs)
class Strict(BaseModel):
    id : int
    n  : int
    s  : str
class Ctl(BaseModel):
    arg: Any = None

EXCS = [lambda: ValueError("v"), lambda: KeyError("k"), lambda: json.JSONDecodeError("m", "doc", 0), lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "x"),
        lambda: asyncio.TimeoutError(), lambda: ConnectionResetError(), lambda: OSError(5, "io"), lambda: AssertionError(), lambda: RecursionError(),
        lambda: StopAsyncIteration(), lambda: EX.ServerBusyException("busy"), lambda: EX.CommunicationsMaxRetriesReached(), lambda: EX.CommunicationsNonRetryable("x"),
        lambda: Exception("\u00e9\u4e2d\n\"quoted\""), lambda: BrokenPipeError(), lambda: EX.ProcessingException("p"), lambda: ZeroDivisionError(), lambda: TypeError("a"),
        lambda: AttributeError("protocol_dto"), lambda: UnicodeEncodeError("utf-8", "x", 0, 1, "y")]

# ------------------------------------------------------------------------------------------------ child
class Child:
    def __init__(self, sc):
        self.sc, self.gates, self.released = sc, {}, set()
        self.ev = os.open(EVFILE, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    def emit(self, **e): os.write(self.ev, (json.dumps(e) + "\n").encode())
    async def points(self, i, sp, where):
        """Log from the places user code logs from."""
        log.info(f"@{i} {where}1")
        await asyncio.sleep(0)
        log.info(f"@{i} {where}2")
        m = i % 4
        if m == 1:
            await asyncio.sleep(0.001); log.warning(f"@{i} {where}3")
        if m == 2:
            async def sub(): log.info(f"@{i} {where}4"); await asyncio.sleep(0); log.error(f"@{i} {where}5")
            t = asyncio.create_task(sub()); await t
        if m == 3:
            await asyncio.to_thread(log.info, f"@{i} {where}6")
        log.info(f"@{i} {where}7")
    async def gate(self, i):
        if i in self.released: return
        f = asyncio.get_running_loop().create_future(); self.gates[i] = f
        await f
    def build(self):
        me = self
        logs = self.sc.get("logs")
        class MW(MiddlewareBase):
            def __init__(s, w): s.w = w
            async def before_routing(s, **kw):
                d = kw["protocol_dto"]
                if not isinstance(d.data, dict) or type(d.data.get("id")) is not int: return d
                i, w = d.data["id"], s.w
                me.emit(e="h", h="b", w=w, id=i, ch=list(d.data.get("ch", [])), sp=kid(d.span_key), sk=kid(kw.get("span_key")))
                if logs: await me.points(i, 0, f"b{w}-")
                else: await asyncio.sleep(0)
                a = (d.data.get("arg") or {}).get(f"b{w}", "same") if isinstance(d.data.get("arg"), dict) else "same"
                if a == "raise": raise ValueError("mw")
                if a == "proc": raise EX.ApplicationProcessingException("mw")
                if a == "mut": d.data["ch"] = d.data.get("ch", []) + [w]
                if a in ("rep", "route", "bad", "nowhere"):
                    data = dict(d.data, ch=d.data.get("ch", []) + [w])
                    if a == "bad": data["z"] = "not a number"
                    return RequestDTO(route_key=dict(route="s.ok2", nowhere="s.nowhere").get(a, d.route_key), span_key=d.span_key, data=data)
                return d
            async def after_routing(s, **kw):
                r = kw["response_dto"]
                if not isinstance(r, Echo): return r
                i, w, d = r.id, s.w, kw["protocol_dto"]
                me.emit(e="h", h="a", w=w, id=i, ch=list(r.rs), sp=kid(d.span_key), sk=kid(kw.get("span_key")), pc=d.data.get("ch", []))
                if logs: await me.points(i, 0, f"a{w}-")
                else: await asyncio.sleep(0)
                a = (d.data.get("arg") or {}).get(f"a{w}", "same") if isinstance(d.data.get("arg"), dict) else "same"
                if a == "raise": raise KeyError("mw")
                if a == "proc": raise EX.ApplicationProcessingException("mw")
                if a == "nil": return None
                if a == "mut": r.rs.append(w)
                if a == "rep": return Echo(id=r.id, data=r.data, rs=r.rs + [w])
                return r
        for w in range(1, self.sc.get("mws", 0) + 1): MiddlewareManager().add(MW(w))

        def ep(route, dto, fn):
            @endpoint(route, dto)
            async def f(dto, span_key): return await fn(dto, span_key)
        async def body(d, k, n):
            me.emit(e="h", h="x", w=n, id=d.id, ch=d.ch, sp=kid(k), sk=kid(k))
            me.emit(e="exe", id=d.id, sp=kid(k))
            if logs: await me.points(d.id, 0, "e")
        async def ok(d, k): await body(d, k, 0); return Echo(id=d.id, data=d.data)
        async def ok2(d, k): await body(d, k, 2); return Echo(id=d.id, data=d.data)
        async def gate(d, k):
            await body(d, k, 0); await me.gate(d.id)
            if logs: await me.points(d.id, 0, "g")
            return Echo(id=d.id, data=d.data)
        async def gexc(d, k):
            await body(d, k, 0); await me.gate(d.id); raise EXCS[d.data["x"] % len(EXCS)]()
        async def gproc(d, k): await body(d, k, 0); await me.gate(d.id); raise EX.ApplicationProcessingException("later")
        async def gval(d, k): await body(d, k, 0); await me.gate(d.id); Strict(id=1)
        async def proc(d, k): await body(d, k, 0); raise EX.ApplicationProcessingException("no \u00e9\n\"q\"")
        async def exc(d, k): await body(d, k, 0); raise EXCS[d.data["x"] % len(EXCS)]()
        async def excval(d, k): await body(d, k, 0); Strict(id=1)
        async def unser(d, k):
            await body(d, k, 0)
            class X: pass
            e = Echo(id=d.id); e.data = X(); return e
        async def none(d, k): await body(d, k, 0); return None
        async def send(d, k):
            await body(d, k, 0); await me.snd(d.id, span_key=k); return Echo(id=d.id, data=d.data)
        for n, f in dict(ok=ok, ok2=ok2, gate=gate, gexc=gexc, gproc=gproc, gval=gval, proc=proc, exc=exc, excval=excval, unser=unser, none=none, send=send).items(): ep(f"s.{n}", Msg, f)
        async def strict(d, k): await body(Msg(id=d.id), k, 0); return Echo(id=d.id)
        ep("s.strict", Strict, strict)
        @endpoint("s.empty")
        async def empty(): return EmptyDto()
        tried = set()
        @buffered_endpoint("s.buf", Msg, page_size=3, max_retries=3)
        async def buf(dto, span_key):
            me.emit(e="bex", id=dto.id, sp=kid(span_key))
            if logs: await me.points(dto.id, 0, "w")
            if dto.id % 3 == 0 and dto.id not in tried: tried.add(dto.id); return False
            if dto.id % 7 == 0: raise ValueError("in buffered")
            return True
        @buffered_endpoint("s.bufp", Msg, page_size=3, max_retries=3)
        async def bufp(dto, span_key): return True
        class Cl(ClientBase):
            async def _send_message_retry_loop(s, request): raise NotImplementedError
            async def send_message(s, route_key, data, response_dto_type=EmptyDto, span_key=None):
                me.emit(e="bex", id=data.id, sp=kid(span_key))
                if logs: await me.points(data.id, 0, "s")
                if data.id % 3 == 0 and -data.id not in tried: tried.add(-data.id); raise EX.ServerBusyException("b")
                return response_dto_type()
        @buffered_sender(Cl(), "s.out", Msg, EmptyDto, wait_period=0, page_size=3, max_retries=3)
        async def snd(i, span_key=None): return Msg(id=i)
        self.snd = snd
        @endpoint("ctl.rel", Ctl)
        async def rel(dto: Ctl):
            me.released.add(dto.arg); f = me.gates.get(dto.arg)
            if f and not f.done(): f.set_result(1)
            return Ctl(arg=1)
        @endpoint("ctl.bg", Ctl)
        async def bg(dto: Ctl):
            me.bgq.put_nowait(1); await asyncio.sleep(0); return Ctl(arg=1)
        @endpoint("ctl.idle", Ctl)
        async def idle(dto: Ctl):
            await asyncio.sleep(0.005)
            return Ctl(arg=1)
    def run(self):
        me = self
        class Srv(ApplicationBase):
            async def setup_tasks(s, tasks):
                me.bgq = asyncio.Queue()
                async def back():
                    while True:
                        await me.bgq.get(); log.info("@0 background")
                tasks.append(asyncio.create_task(back()))
        self.build()
        with Srv() as app: app.start()

# ------------------------------------------------------------------------------------------------ parent
def build(kind, i, rng, udp=False):
    """-> (bytes without LF, expected data of a success)"""
    sk, data = keyj(i), payload_value(1 + i % 40)
    if kind == "enq": return b"\x05", None
    def req(route, d, **k):
        r = dict(route_key=route, span_key=sk, data=d); r.update(k); return r
    m, echo = dict(id=i, data=data), dict(id=i, data=data, rs=[])
    esc = lambda o: json.dumps(o, ensure_ascii=rng.random() < 0.5).encode()
    if kind in ("ok", "gate", "send"):
        b = esc(req(f"s.{kind}", m))
        x = rng.randrange(6)
        if x == 0: b = b"  " + b + b" \r"
        elif x == 1: b = esc(dict(reversed(list(req(f"s.{kind}", dict(m, extra=1), more=[1]).items()))))
        elif x == 2: b = esc(req(f"s.{kind}", m, span_key=dict(trace_id=sk["trace_id"].upper(), span_id=sk["span_id"].upper() if rng.random() < 0.5 else sk["span_id"])))
        return b, echo
    if kind == "big":
        m["data"] = echo["data"] = {"n": 1, "b": "".join(rng.choice("abc\u00e9\u4e2d ") for _ in range(rng.choice([3000, 8000, 9000, 12000])))}
        b = json.dumps(req("s.ok", m), ensure_ascii=False).encode()
        assert len(b) < 65000; return b, echo
    if kind == "empty": return esc(req("s.empty", {})), {}
    if kind == "none": return esc(req("s.none", m)), None
    if kind == "buf": return esc(req("s.buf", m)), dict(span_key=sk)
    if kind == "badjson":
        b = rng.choice([b"{", b"hello", b"{'a': 1}", esc(req("s.ok", m))[:-1], esc(req("s.ok", m)) + b"}", b"\x00\x01", b"", b"   ", b"\t\r", b"}{", b"[1,2", b"\x06", b"GET / HTTP/1.1\r",
                        b"{\"route_key\": s.ok}", b"nul", b"\x7f",
                        esc(req("s.ok", dict(id=i, data="\x05\x06"))).replace(b"\\u0005", b"\x05").replace(b"\\u0006", b"\x06"), b" \x05", b"x\x05", b"{\x05}", b"[\x06]"])
        if udp and b[:1] in (b"\x06", b"\x05"): b = b"nul"
        return b, None
    if kind == "badutf8": return rng.choice([b"\xff\xfe", b"{\"route_key\": \"\xc3\"}", esc(req("s.ok", m))[:-2] + b"\x80}}", b"\xc0\x80", b"\xed\xa0\x80"]), None
    if kind == "deep": return b"[" * rng.choice([5000, 30000]), None
    if kind == "nonobj": return rng.choice([b"[1,2]", b"5", b"null", b"\"text\"", b"true", b"[]", b"1.5e3", b"[[\"route_key\",\"s.ok\"]]", b"NaN"]), None
    if kind == "missing":
        r = req("s.ok", m); del r[rng.choice(list(r))]
        if rng.random() < 0.2: r = {}
        return esc(r), None
    if kind == "badspan":
        bad = rng.choice([None, 5, "x", {}, dict(trace_id="zz", span_id=sk["span_id"]), dict(trace_id=sk["trace_id"], span_id="zz"), dict(trace_id=sk["trace_id"]), dict(span_id=sk["span_id"]),
                          dict(trace_id=sk["trace_id"], span_id="-" + sk["span_id"][1:]), dict(trace_id=sk["trace_id"], span_id=sk["span_id"] + "0"), [sk], dict(trace_id=sk["trace_id"], span_id=-7),
                          dict(trace_id=sk["trace_id"], span_id=rng.choice(["+", "0x", " ", "1_"]).ljust(2, "1") + sk["span_id"][2:])])
        return esc(req("s.ok", m, span_key=bad)), None
    if kind == "badroute": return esc(req("s.ok", m, route_key=rng.choice([None, 5, ["s.ok"], {}]))), None
    if kind == "baddto": return esc(req("s.strict", rng.choice([{}, dict(id=i), dict(id=i, n="x", s="y"), dict(id=i, n=1, s=5), dict(id=None, n=1, s="a"), dict(id=i, n=1.5, s="")]))), None
    if kind == "strict": return esc(req("s.strict", dict(id=i, n=1, s="x"))), dict(id=i, data=None, rs=[])
    if kind == "nondict": return esc(req("s.strict", rng.choice([None, 5, "x", [1], True]))), None
    if kind == "unknown": return esc(req(rng.choice(["", "nope", "s.", "S.OK", "s.ok ", "s.out", "\u00e9", "eco.nope", "s.ok\x00", "s"]), m)), None
    if kind == "surr": return json.dumps(req("s.strict", dict(id=i, n=1, s="\ud800x"))).encode(), dict(id=i, data=None, rs=[])
    if kind == "surrd": return json.dumps(req("s.ok", dict(id=i, data="\udfff"))).encode(), None
    if kind in ("proc", "exc", "excval", "unser", "bufp", "gexc", "gproc", "gval"):
        return esc(req(f"s.{kind}", dict(id=i, data={"x": rng.randrange(1000)}))), None
    if kind.startswith("mw:"):
        _, route, plan = kind.split(":", 2)
        arg = dict(p.split("=") for p in plan.split(",") if p)
        d = dict(id=i, data={"x": rng.randrange(1000)}, ch=[], arg=arg)
        return esc(req(f"s.{route}", d)), dict(id=i, data=d["data"])
    raise KeyError(kind)

GATES = ("gate", "gexc", "gproc", "gval")      # kinds whose endpoint waits to be released
class Conn:
    def __init__(self, c, tr):
        self.c, self.tr, self.q, self.buf, self.part, self.st = c, tr, [], b"", b"", "open"
        if tr == "tcp": self.s = socket.create_connection((HOST, TCP), 5)
        elif tr == "uds":
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.s.settimeout(5); self.s.connect(UDS)
        else:
            self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); self.s.connect((HOST, UDP))
        self.s.setblocking(False)

class World:
    def __init__(self, sc):
        self.sc, self.tr, self.cs, self.req, self.late = sc, [], {}, {}, False
        self.rng = random.Random(sc["seed"]); self.released = set()
        self.tr.append(dict(ev="reset", mws=sc.get("mws", 0)))
    def ev(self, ev, **k): self.tr.append(dict(ev=ev, **k))

    def start(self):
        for f in (EVFILE, UDS):
            try: os.unlink(f)
            except FileNotFoundError: pass
        for f in os.listdir(f"{SCRATCH}/buf"): os.unlink(f"{SCRATCH}/buf/{f}")
        self.logpos = os.path.getsize(LOGFILE) if os.path.exists(LOGFILE) else 0
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
                Child(self.sc).run(); rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally: os._exit(rc)
        end = time.time() + 15
        for tr in ("uds", "tcp"):
            while True:
                try: c = Conn(0, tr); break
                except OSError:
                    if time.time() > end: raise RuntimeError("application did not start")
                    time.sleep(0.003)
            if tr == "uds": self.ctl = c.s; self.ctl.settimeout(10); self.ctlf = self.ctl.makefile("rb")
            else: c.s.close()
        time.sleep(0.003)
        self.call("eco.log.buffer", dict(size=self.sc.get("logbuf", 0)))
        self.call("eco.buffered_handler.receiving.pause", dict(queue_route_key="s.bufp"))

    def call(self, route, data):
        self.ctl.sendall((json.dumps(dict(route_key=route, span_key=keyj(2999), data=data)) + "\n").encode())
        line = self.ctlf.readline()
        return json.loads(line)["data"] if line else None

    # ---------------------------------------------------------------- reading
    def got(self, c, line):
        if line in (b"\x06\n", b"\x06"):
            self.ev("rcv", c=c.c, a=1, st=0, sp=0, v=0)
            if c.q: c.q.pop(0)
            return
        try:
            r = json.loads(line); st = r["status"]; sp = kid(SpanKey(**r["span_key"])) if r["span_key"] else 0
            ok = isinstance(st, int) and set(r) == {"span_key", "status", "data"}
        except Exception:
            self.ev("rcv", c=c.c, a=0, st=-1, sp=-1, v=-1); 
            if c.q: c.q.pop(0)
            return
        j = 0
        if c.tr == "udp": j = next((n for n, i in enumerate(c.q) if i == sp), 0)
        i = c.q.pop(j) if c.q else 0
        v, rs = -1, []
        if i and ok:
            exp = self.req[i][1]
            d = r["data"]
            if self.req[i][0].startswith("mw:") and isinstance(d, dict):
                rs = d.pop("rs", [])
            if self.req[i][0].startswith("mw:") and self.req[i][0].endswith("=nil"): exp = None
            v = i if st == 0 and d == exp else 0 if st != 0 and isinstance(d, str) else -1
        self.ev("rcv", c=c.c, a=0, st=st, sp=sp, v=v)
        if i: self.req[i][2] = (st, rs)
    def pump(self, t, cs=None):
        cs = [c for c in (cs or self.cs.values()) if c.st in ("open", "half")]
        rd, _, _ = select.select([c.s for c in cs], [], [], t)
        for c in cs:
            if c.s not in rd: continue
            try:
                b = c.s.recv(1 << 20)
            except BlockingIOError: continue
            except OSError as e:
                if c.tr == "udp": continue
                b = b""
            if c.tr == "udp": self.got(c, b.rstrip(b"\n")); continue
            if not b:
                self.ev("eof", c=c.c, part=len(c.buf)); c.st = "eof"; c.s.close(); continue
            c.buf += b
            while b"\n" in c.buf:
                line, c.buf = c.buf.split(b"\n", 1)
                self.got(c, line + b"\n" if line == b"\x06" else line)
        return len(rd)
    def gated(self, i): return self.req[i][0] in GATES and i not in self.released
    def owed(self, cs=None):
        udpblock = any(self.gated(i) for c in self.cs.values() if c.tr == "udp" for i in c.q) or any(self.gated(i) for i in getattr(self, "lostudp", ()))
        for c in cs or self.cs.values():
            if c.st not in ("open", "half"): continue
            if c.tr == "udp":
                if c.q and not udpblock: return True
            elif c.q and not self.gated(c.q[0]): return True
            elif c.st == "half" and not c.q and not c.part: return True      # the server closes
            elif c.st == "half" and not c.q: return True
        return False
    def qui(self, cs=None):
        end = time.time() + 6
        while self.owed(cs) and time.time() < end: self.pump(0.05, cs)
        if self.owed(cs): self.late = True
        self.pump(0, cs)
        self.ev("qui", cs=[c.c for c in cs or self.cs.values()])

    # ---------------------------------------------------------------- writing
    def write(self, c, b, chop=True):
        cuts = sorted(self.rng.randrange(len(b) + 1) for _ in range(self.rng.choice([0, 0, 1, 3]))) if chop and b else []
        for x, y in zip([0] + cuts, cuts + [len(b)]):
            part = b[x:y]
            end = time.time() + 5
            while part:
                try: n = c.s.send(part); part = part[n:]
                except BlockingIOError:
                    self.pump(0.01)
                    if time.time() > end: self.late = True; return
                except OSError:
                    return
            if cuts and self.rng.random() < 0.3: time.sleep(0.0005)
    def put(self, c, kind, i):
        b, exp = build(kind, i, self.rng, c.tr == "udp")
        self.req[i] = [kind, exp, None]
        return b
    def do(self, op):
        n = op[0]
        if n == "open":
            self.cs[op[1]] = Conn(op[1], op[2]); self.ev("open", c=op[1], tr=op[2]); return
        if n == "rel":
            self.released.add(op[1]); self.ev("rel", id=op[1]); self.call("ctl.rel", dict(arg=op[1])); self.qui(); return
        if n == "bg": self.call("ctl.bg", {}); return
        if n == "par":          # several connections at once, then one settle
            for o in op[1]: self.do(o + ["nowait"])
            self.qui(); return
        c = self.cs[op[1]]
        if c.st != "open": return
        if n == "snd":
            out = b""
            for kind, i in op[2]:
                b = self.put(c, kind, i)
                self.ev("snd", c=c.c, id=i, kind=kind.split(":")[0], s=self.spkind(kind)); c.q.append(i)
                if c.tr == "udp":
                    try: c.s.send(b + b"\n")
                    except OSError: pass
                    if self.spkind(kind) != "y" and "nowait" not in op: self.qui()
                else: out += b + b"\n"
            if out: self.write(c, out)
        elif n == "part":
            kind, i = op[2]
            b = self.put(c, kind, i); k = self.rng.randrange(1, len(b) + 1) if b else 0; c.part, c.pi = b[k:] + b"\n", (kind, i)
            self.ev("part", c=c.c, id=i); self.write(c, b[:k])
        elif n == "fin":
            kind, i = c.pi; b, c.part = c.part, b""
            self.ev("snd", c=c.c, id=i, kind=kind.split(":")[0], s=self.spkind(kind)); c.q.append(i)
            self.write(c, b)
        elif n == "close":
            if op[2] == "half":
                self.ev("hgone", c=c.c); c.st = "half"
                try: c.s.shutdown(socket.SHUT_WR)
                except OSError: pass
            else:
                if op[2] == "rst" and c.tr == "tcp": c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                c.s.close(); c.st = "gone"; self.ev("gone", c=c.c)
                if c.tr == "udp": self.lostudp = getattr(self, "lostudp", []) + c.q
        elif n == "flood":      # a client that sends without reading
            other = self.cs[op[3]]
            lines, sent = [], 0
            for i in op[2]:
                b, exp = build("big", i, self.rng); self.req[i] = ["big", exp, None]; lines.append((i, b + b"\n"))
            pend = b""; k = 0; stall = 0
            def feed():
                nonlocal pend, k
                if not pend and k < len(lines):
                    i, pend = lines[k]; k += 1
                    self.ev("snd", c=c.c, id=i, kind="big", s="y"); c.q.append(i)
                try: n = c.s.send(pend); pend = pend[n:]; return True
                except BlockingIOError: return False
            while (pend or k < len(lines)) and stall < 20:
                if feed(): stall = 0
                else: stall += 1; time.sleep(0.002)
            self.do(["snd", other.c, [["ok", op[4]]], "nowait"])
            end = time.time() + 6
            while other.q and time.time() < end: self.pump(0.05, [other])
            if other.q: self.late = True
            self.ev("qui", cs=[other.c])
            end = time.time() + 10
            while (pend or k < len(lines)) and time.time() < end:
                self.pump(0.002)
                if pend or k < len(lines): feed()
        if "nowait" not in op: self.qui()
    def spkind(self, kind):
        if kind in ("badjson", "badutf8", "deep", "nonobj", "badspan", "enq"): return "n"
        if kind in ("missing", "badroute"): return "m"
        return "y"

    def run(self):
        self.start()
        exit = "exit"
        try:
            for op in self.sc["ops"]:
                self.do(op)
                if self.late: break
            else:
                for i in [i for i in self.req if self.gated(i)]: self.do(["rel", i])
                self.qui()
                nid = 2990
                for c in list(self.cs.values()):        # nothing but the answer to a last enquiry comes now
                    if c.st == "open" and c.tr != "udp" and not c.part:
                        self.do(["snd", c.c, [["enq", nid]]]); nid -= 1
                self.do(["open", 2001, "tcp"]); self.do(["snd", 2001, [["ok", 2901]]])      # the server is still there
                self.do(["open", 2002, "uds"]); self.do(["snd", 2002, [["ok", 2902]]])
                self.do(["open", 2003, "udp"]); self.do(["snd", 2003, [["ok", 2903]]])
                self.pump(0.005)
            for _ in range(500):
                a = self.call("eco.buffered_handler.data", dict(queue_route_key="s.buf"))["queue_data"]["database_sizes"]["pending"]
                b = self.call("eco.buffered_sender.data", dict(queue_route_key="s.out"))["queue_data"]["database_sizes"]["pending"]
                if a + b == 0: break
                time.sleep(0.002)
            self.call("ctl.idle", {})
            if self.sc.get("stats"):
                st = self.call("eco.statistics.get", dict(type="current"))["statistics"]
                self.ev("stat", n=[[r, st["endpoint_data"]["s"][r]["call_count"]] for r in ("ok", "gate", "strict", "none", "buf", "proc", "exc", "empty")])
        except (OSError, ValueError) as e:
            self.ev("broken", why=f"{type(e).__name__}: {e}")
        try: os.kill(self.pid, signal.SIGTERM)
        except ProcessLookupError: pass
        end = time.time() + 8
        while time.time() < end:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p: break
            time.sleep(0.002)
        else:
            os.kill(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0); self.ev("broken", why="did not stop")
        for c in self.cs.values(): c.s.close()
        self.ctl.close()
        hooks = {}
        try: evs = [json.loads(x) for x in open(EVFILE)]
        except FileNotFoundError: evs = []
        for e in evs:
            if e["e"] == "exe": self.ev("exe", id=e["id"], sp=e["sp"])
            elif e["e"] == "bex": self.ev("spn", id=e["id"], sp=e["sp"])
            else:
                hooks.setdefault(e["id"], []).append(e); self.ev("spn", id=e["id"], sp=e["sp"]); self.ev("spn", id=e["id"], sp=e["sk"])
        if self.sc.get("mws"):
            for i, (kind, exp, rsp) in self.req.items():
                if not kind.startswith("mw:") or rsp is None: continue
                _, route, plan = kind.split(":", 2)
                d = dict(p.split("=") for p in plan.split(",") if p)
                self.ev("mw", id=i, route=route, plan=[[d.get(f"{h}{w}", "same") for w in range(1, self.sc["mws"] + 1)] for h in "ba"],
                        got=[[e["h"], e["w"], e["ch"], e.get("pc", [])] for e in hooks.get(i, [])], st=rsp[0], rs=rsp[1])
        if self.sc.get("logs"):
            n = {}
            with open(LOGFILE, "rb") as f:
                f.seek(self.logpos)
                for line in f:
                    try: r = json.loads(line)
                    except Exception: self.ev("log", id=0, sp=-2); continue
                    sp = 0 if r["trace_id"] is None and r["span_id"] is None else LOGKEYS.get((r["trace_id"], r["span_id"]), -1)
                    b = r["body"]
                    if b.startswith("@"):
                        i = int(b[1:].split()[0]); self.ev("log", id=i, sp=sp); n[i] = n.get(i, 0) + 1
                    elif b.startswith(("Buffered handler", "Buffered sender")) and b.endswith(("stopping.", "stopped.", "setup.", "complete.")) or b.startswith(("Serving", "Shutdown", "Doing Shutdown", "Instance [", "Setting up")):
                        self.ev("log", id=0, sp=sp)
            self.ev("lines", n=sum(1 for i in n if i))
        self.ev("end")
        return self.tr

out = []
for sc in PAYLOAD["scenarios"]:
    out.append(World(sc).run())
drv.result(dict(traces=out))
