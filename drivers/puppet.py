"""A real ekosis application in a forked process, driven over its own unix socket.

The driver process imports ekosis once (configuration is fixed per driver) and forks one child per
application incarnation; the child builds the application with the public API only."""
import drv, os, sys, json, socket, time, signal, random, uuid, glob, errno
from drv import SCRATCH, payload_value
for s in ("buf", "log", "lock", "sock"):
    os.makedirs(f"{SCRATCH}/{s}", exist_ok=True)
sys.argv = [f"{SCRATCH}/puppet.py", "-i", "0", "-lfo"]
SOCK = f"{SCRATCH}/sock/puppet_0.uds.sock"
os.environ.update(ECOENV_BUFFER_DIR=f"{SCRATCH}/buf", ECOENV_LOG_DIR=f"{SCRATCH}/log", ECOENV_LOCK_DIR=f"{SCRATCH}/lock",
                  ECOENV_UDS_PUPPET_0=f"{SCRATCH}/sock/DEFAULT", ECOENV_LOG_BUF_SIZE="0",
                  ECOENV_LOG_MAX_SIZE="100000000")
ADDR = dict(uds=SOCK)
if any(w.get("cli") for w in drv.PAYLOAD.get("walks", [])):       # the tools come over any transport
    _p = os.getpid(); _h = f"127.{2 + _p % 250}.{(_p >> 8) % 256}.{(_p >> 16) % 250 + 2}"
    ADDR.update(tcp=f"{_h}:23456", udp=f"{_h}:23457")
    os.environ.update(ECOENV_TCP_PUPPET_0=ADDR["tcp"], ECOENV_UDP_PUPPET_0=ADDR["udp"])
import asyncio, logging
from uuid import UUID
from typing import Any
from pydantic import BaseModel, field_validator
import ekosis.application_base as AB
from ekosis.application_base import ApplicationBase
from ekosis.requests.endpoint import endpoint
from ekosis.requests.buffered_endpoint import buffered_endpoint
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.clients import ClientBase
from ekosis.middleware.buffered_middleware_base import BufferedMiddlewareBase
from ekosis.middleware.buffered_middleware_manager import BufferedMiddlewareManager
from ekosis.data_transfer_objects import SpanKey, SpanId, EmptyDto
from ekosis.state_keepers.buffered_handler_keeper import BufferedHandlerKeeper
from ekosis.state_keepers.buffered_sender_keeper import BufferedSenderKeeper
import ekosis.exceptions as EX
logging.disable(logging.CRITICAL)

EVFILE = f"{SCRATCH}/events"
ROUTE  = lambda r: f"puppet.{r}"

class Msg(BaseModel):
    data: Any
    note: str | None = "n0"
    def __len__(self): return 0 if self.note is None else 1      # a DTO may well be falsy

def fields(k):
    """The fields of request k; a third of them is left to the default, a third is explicitly nothing."""
    return dict(data=payload_value(k), **({}, dict(note=None), dict(note=f"other {k}"))[k % 3])

def misfit(k): return k % 3 == 0
class Strict(Msg):
    """What a later version of the application expects."""
    @field_validator("data")
    @classmethod
    def known(cls, d):
        if isinstance(d, dict) and misfit(d.get("n", 1)): raise ValueError("no such thing any more")
        return d

class Ctl(BaseModel):
    route: str = ""
    arg  : Any = None

class CtlOut(BaseModel):
    out: Any = None

def key(k):
    return SpanKey(trace_id=UUID(int=(k // 2) * 7919 + 5), span_id=SpanId(int_=(k % 2) * (1 << 63) + (k // 4) * 3 + 1))
KEYS = {str(key(k)): k for k in range(1, 400)}
KEYJ = {k: json.loads(key(k).model_dump_json()) for k in range(1, 400)}

def kid(s):
    return KEYS.get(str(s), -1)

def strict(c, inc):
    """Does the route, in this life, not know some of the data of others?"""
    return bool(c.get("strict")) and c["strict"][inc % len(c["strict"])] == 1

def vid(dto):
    """Payload id of a DTO (0 for the field-less DTO)."""
    if isinstance(dto, EmptyDto) or dto == {}:
        return 0
    f = dict(data=dto.data, note=dto.note) if isinstance(dto, Msg) else dto if isinstance(dto, dict) else {}
    d = f.get("data")
    n = d.get("n", -1) if isinstance(d, dict) else -1
    return n if isinstance(n, int) and n > 0 and f == dict(dict(note="n0"), **fields(n)) else -1

# ------------------------------------------------------------------------------------------------ child
OTHERS = [lambda: EX.CommunicationsNonRetryable("x"), lambda: EX.ProcessingException("x"), lambda: ValueError("x"),
          lambda: EX.UnhandledException("x"), lambda: EX.RouteKeyUnknownException("x"), lambda: EX.ProtocolParsingException("x"),
          lambda: EX.PydanticValidationException("x"), lambda: EX.CommunicationsEmptyResponse("x"), lambda: RuntimeError()]

class Child:
    def __init__(self, conf, base):
        self.conf, self.gates, self.auto, self.arm, self.busy = conf, {}, {}, {}, {}
        self.seq, self.tok, self.inc = base, {}, base // 1000
        self.hold, self.held = {}, {}
        self.ev  = os.open(EVFILE, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        self.nev = 0

    def emit(self, **e):
        self.nev += 1
        os.write(self.ev, (json.dumps(e) + "\n").encode())

    async def gate(self, r, k, v):
        """One handler call / send: waits for its outcome."""
        self.busy.setdefault(r, []).append(k)
        self.emit(e="st", r=r, k=k, v=v)
        try:
            a = self.auto.get(r)
            if a:
                o = a.pop(0)
                if o.startswith("spin"):           # computes without awaiting
                    t = time.time()
                    while time.time() - t < float(o[4:] or 0.3): pass
                    o = "ok"
            else:
                f = asyncio.get_running_loop().create_future()
                self.gates.setdefault(r, []).append(f)
                try: o = await f
                finally: self.gates[r].remove(f)
            self.emit(e="fin", r=r, k=k, o=o)
            return o
        finally:
            self.busy[r].remove(k)

    async def wait_here(self, r):
        self.hold.pop(r, None)
        f = self.held[r] = asyncio.get_running_loop().create_future()
        try: await f
        finally: self.held.pop(r, None)

    def build(self):
        me = self
        class MW(BufferedMiddlewareBase):
            def __init__(s, w): s.w = w
            async def before_push(s, span_key, dto):
                await asyncio.sleep(0)
                if s.w == 1 and me.hold.get(type(dto).__name__) == kid(span_key): await me.wait_here(type(dto).__name__)
                if s.w == 1: me.seq += 1; me.tok[str(span_key)] = me.seq
                m = me.tok.get(str(span_key), -1)
                me.emit(e="push", r=type(dto).__name__, w=s.w, k=kid(span_key), v=vid(dto), m=m)
                return {f"m{s.w}": m, "x": [s.w, m]}
            def tok(s, md):
                m = md.get("m1", -1)
                return m if md == {"m1": m, "m2": m, "x": [2, m]} else -1
            async def before_process(s, span_key, dto, metadata, retries):
                await asyncio.sleep(0)
                r = type(dto).__name__
                me.emit(e="b", r=r, w=s.w, k=kid(span_key), n=retries, m=s.tok(metadata), v=vid(dto))
                if s.w == 1 and me.arm.get(r) == "hb": await me.wait_here(r)
                if s.w == 1 and me.arm.get(r) == "b": me.arm[r] = ""; raise RuntimeError("armed")
            async def after_process(s, span_key, dto, metadata, success):
                await asyncio.sleep(0)
                r = type(dto).__name__
                me.emit(e="a", r=r, w=s.w, k=kid(span_key), n=1 if success else 0, m=s.tok(metadata), v=vid(dto))
                if s.w == 1 and me.arm.get(r) == "ha": await me.wait_here(r)
                if s.w == 1 and me.arm.get(r) == "a": me.arm[r] = ""; raise RuntimeError("armed")
        if not any(c.get("nomw") for c in self.conf):
            BufferedMiddlewareManager().add(MW(1)); BufferedMiddlewareManager().add(MW(2))

        for c in self.conf:
            dto = type(c["r"], (EmptyDto if c.get("dto") == "empty" else Strict if strict(c, self.inc) else Msg,), {})   # hooks learn the route from the type
            if c["kind"] == "ep": self.add_ep(c["r"], dto, c)
            else: self.add_snd(c["r"], dto, c)

        @endpoint("ctl.release", Ctl)
        async def rel(dto: Ctl):
            g = [f for f in me.gates.get(dto.route, []) if not f.done()]
            if g: g[0].set_result(dto.arg)
            return CtlOut(out=len(g))

        @endpoint("ctl.auto", Ctl)
        async def aut(dto: Ctl):
            me.auto.setdefault(dto.route, []).extend(dto.arg); return CtlOut()

        @endpoint("ctl.arm", Ctl)
        async def arm(dto: Ctl):
            me.arm[dto.route] = dto.arg; return CtlOut()

        @endpoint("ctl.hold", Ctl)
        async def hold(dto: Ctl):
            if dto.arg: me.hold[dto.route] = dto.arg
            return CtlOut(out=int(dto.route in me.held))

        @endpoint("ctl.let", Ctl)
        async def let(dto: Ctl):
            me.hold.pop(dto.route, None)
            f = me.held.get(dto.route)
            if f and not f.done(): f.set_result(None)
            return CtlOut(out=int(f is not None))

        @endpoint("ctl.enqueue", Ctl)
        async def enq(dto: Ctl):
            k, v = dto.arg
            await me.senders[dto.route](v, span_key=key(k)); return CtlOut()

        @endpoint("ctl.raise", Ctl)
        async def rai(dto: Ctl):
            me.fatal.set_result(dto.arg); return CtlOut()

        @endpoint("ctl.spin", Ctl)
        async def spin(dto: Ctl):
            me.emit(e="spin"); t = time.time()
            while time.time() - t < dto.arg:
                try:
                    while time.time() - t < dto.arg: pass
                except Exception: pass         # user code that swallows exceptions
            return CtlOut()

        @endpoint("ctl.settle", Ctl)
        async def settle(dto: Ctl):
            end = time.time() + (dto.arg or 2.0)
            while True:
                quiet, last = 0, me.nev
                while quiet < 25:
                    await asyncio.sleep(0)
                    quiet = quiet + 1 if me.nev == last else 0
                    last = me.nev
                stalled = await me.owed()
                if not stalled or time.time() > end:
                    break
                await asyncio.sleep(0.004)
            return CtlOut(out=[{c["r"]: me.busy.get(c["r"], []) for c in me.conf}, stalled])

    async def owed(self):
        """Some route has something to do and is not doing it (yet)."""
        for c in self.conf:
            if c.get("wait"): continue
            if self.busy.get(c["r"]): continue
            k = BufferedHandlerKeeper() if c["kind"] == "ep" else BufferedSenderKeeper()
            i = await k.get_queue_information(ROUTE(c["r"]))
            if i and i["pending"] > 0 and not i.get("processing_paused", i.get("send_process_paused")):
                return True
        return False

    def ps(self, c):
        return c["ps"][self.inc % len(c["ps"])] if isinstance(c["ps"], list) else c["ps"]

    def add_ep(self, r, dto_type, c):
        me = self
        async def h(o):
            if o == "ok": return True
            if o == "fail": return False
            raise random.choice([RuntimeError("boom"), ValueError(), KeyError("k"), EX.ProcessingException("p"),
                                 asyncio.TimeoutError(), AssertionError()])
        @buffered_endpoint(ROUTE(r), dto_type, page_size=self.ps(c), max_retries=c["maxr"])
        async def handler(dto, span_key):
            return await h(await me.gate(r, kid(span_key), vid(dto)))

    def add_snd(self, r, dto_type, c):
        me = self
        class Gated(ClientBase):
            async def _send_message_retry_loop(s, request): raise NotImplementedError
            async def send_message(s, route_key, data, response_dto_type=EmptyDto, span_key=None):
                o = await me.gate(r, kid(span_key) if route_key == ROUTE(r) else -1, vid(data))
                if o == "ok": return response_dto_type()
                if o == "busy": raise EX.ServerBusyException("busy")
                if o == "comm": raise EX.CommunicationsMaxRetriesReached()
                raise random.choice(OTHERS)()
        @buffered_sender(Gated(), ROUTE(r), dto_type, EmptyDto, wait_period=c.get("wait", 0), page_size=self.ps(c), max_retries=c["maxr"])
        async def snd(v, span_key=None):
            return dto_type(**fields(v)) if issubclass(dto_type, Msg) else dto_type()
        self.senders = getattr(self, "senders", {}); self.senders[r] = snd

    def run(self):
        me = self
        class Puppet(ApplicationBase):
            async def setup_tasks(s, tasks):
                me.fatal = asyncio.get_running_loop().create_future()
                async def waiter():
                    w = await me.fatal
                    raise RuntimeError("background task failed")
                tasks.append(asyncio.create_task(waiter()))
        self.build()
        with Puppet() as app:
            app.start()

# ------------------------------------------------------------------------------------------------ parent
class App:
    def __init__(self, conf, rng=None):
        self.conf, self.pid, self.inc = conf, 0, 0
        self.rng = rng or random.Random(0)
        self.evpos = 0
        for f in glob.glob(f"{SCRATCH}/buf/*") + [EVFILE]:
            try: os.unlink(f)
            except FileNotFoundError: pass
        self.sock = None

    def start(self):
        sys.stdout.flush(); sys.stderr.flush()
        try: os.unlink(SOCK)
        except FileNotFoundError: pass
        seed = self.rng.random()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                random.seed(seed)
                n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
                Child(self.conf, self.inc * 1000).run()
                rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                os._exit(rc)
        self.inc += 1
        end = time.time() + 15
        while time.time() < end:
            try:
                self.sock = self.connect()
                if "tcp" in ADDR: self.reach(end)
                return True
            except (FileNotFoundError, ConnectionRefusedError):
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p: self.pid = 0; return False
                time.sleep(0.002)
        return False

    def reach(self, end):
        """Wait until the other servers are up, too."""
        addr = lambda n: (ADDR[n].split(":")[0], int(ADDR[n].split(":")[1]))
        for kind, n in ((socket.SOCK_STREAM, "tcp"), (socket.SOCK_DGRAM, "udp")):
            while time.time() < end:
                with socket.socket(socket.AF_INET, kind) as s:
                    s.settimeout(0.3)
                    try:
                        s.connect(addr(n))
                        s.sendall((json.dumps(dict(route_key="no.such.route", span_key=KEYJ[399], data={})) + "\n").encode())
                        if s.recv(65536): break
                    except OSError: time.sleep(0.005)

    def connect(self):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            s.settimeout(15); s.connect(SOCK)
        except BaseException:
            s.close(); raise
        self.lastfd = s.fileno()
        return s.makefile("rwb")

    def send(self, f, route, data, k=None):
        sk = KEYJ[k] if k else dict(trace_id=str(uuid.uuid4()), span_id=os.urandom(8).hex())
        f.write((json.dumps(dict(route_key=route, span_key=sk, data=data)) + "\n").encode())
        return sk

    def call(self, route, data, k=None):
        """-> (status, data, span key ok)"""
        try:
            sk = self.send(self.sock, route, data, k); self.sock.flush()
            line = self.sock.readline()
        except (OSError, ValueError) as e:
            return (-2, None, False)
        if not line: return (-2, None, False)
        r = json.loads(line)
        return r["status"], r["data"], r["span_key"] == sk

    def events(self):
        try:
            with open(EVFILE, "rb") as f:
                f.seek(self.evpos); b = f.read()
        except FileNotFoundError:
            return []
        self.evpos += len(b)
        return [json.loads(x) for x in b.splitlines()]

    def kill(self, sig, timeout=10):
        """-> exit description: 0 ended by itself in time, else a reason"""
        os.kill(self.pid, sig)
        return self.wait(timeout)

    def wait(self, timeout=10):
        end = time.time() + timeout
        while time.time() < end:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.pid = 0; self.close()
                if os.WIFSIGNALED(st): return f"signal {os.WTERMSIG(st)}"
                return "exit" if os.WEXITSTATUS(st) == 0 else f"exit {os.WEXITSTATUS(st)}"
            time.sleep(0.002)
        self.stop()
        return "hang"

    def close(self):
        try: self.sock.close()
        except Exception: pass

    def stop(self):
        if self.pid:
            try: os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            os.waitpid(self.pid, 0); self.pid = 0
        self.close()
