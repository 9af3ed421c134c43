"""A real application, its clients and its clock in one process on virtual time: statistics and error states."""
import drv, os, sys, json, time
from drv import PAYLOAD, SCRATCH
import vloop
vloop.install()
import timeit
timeit.default_timer = time.perf_counter
for s in ("buf", "log", "lock", "sock"): os.makedirs(f"{SCRATCH}/{s}", exist_ok=True)
GP, HL = PAYLOAD.get("gp", 300), PAYLOAD.get("hl", 12)
sys.argv = [f"{SCRATCH}/stt.py", "-i", "0", "-lfo"]
os.environ.update(ECOENV_BUFFER_DIR=f"{SCRATCH}/buf", ECOENV_LOG_DIR=f"{SCRATCH}/log", ECOENV_LOCK_DIR=f"{SCRATCH}/lock",
                  ECOENV_UDS_STT_0=f"{SCRATCH}/sock/DEFAULT", ECOENV_STAT_GP=str(GP), ECOENV_STAT_HL=str(HL))
UDS = f"{SCRATCH}/sock/stt_0.uds.sock"
import asyncio, uuid
from typing import Any
from pydantic import BaseModel
from ekosis.application_base import ApplicationBase
from ekosis.requests.endpoint import endpoint
from ekosis.requests.buffered_endpoint import buffered_endpoint
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.clients import ClientBase
from ekosis.data_transfer_objects import EmptyDto
from ekosis.state_keepers.statistics_keeper import StatisticsKeeper
from ekosis.state_keepers.error_state_list import ErrorStateList
import ekosis.exceptions as EX

class Policy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self): return vloop.VLoop()
EPS = ["s.a", "s.b", "s", "deep.er.route.key", "flat", "s.q", "s.p", "eco.statistics.get", "eco.error_states.get"]
QS  = ["buffered_endpoint_sizes.s.q.pending", "buffered_endpoint_sizes.s.q.error", "buffered_sender_sizes.s.o.pending", "buffered_sender_sizes.s.o.error"]
class Arg(BaseModel):
    d: float = 0
    o: str = "ok"
    y: int = 0
class Msg(BaseModel):
    i: int = 0

class Script:
    def __init__(self, sc): self.sc, self.tr, self.tasks, self.conns, self.mode = sc, [], [], [], "ok"
    def ev(self, ev, **k): self.tr.append(dict(ev=ev, **k))
    def build(self):
        me = self
        def mk(route):
            @endpoint(route, Arg)
            async def f(dto):
                if dto.d: await asyncio.sleep(dto.d)
                for _ in range(dto.y): await asyncio.sleep(0)
                if dto.o == "inc": StatisticsKeeper().increment("edge.n"); StatisticsKeeper().decrement("edge.m", .5)
                if dto.o == "proc": raise EX.ApplicationProcessingException("x")
                if dto.o == "exc": raise ValueError("x")
                return EmptyDto()
        for r in EPS[:5]: mk(r)
        @buffered_endpoint("s.q", Msg, page_size=2, max_retries=1)
        async def q(dto):
            if me.mode == "exc": raise ValueError("x")
            return True
        @buffered_endpoint("s.p", Msg, page_size=2, max_retries=1)
        async def p(dto): return True
        class Cl(ClientBase):
            async def _send_message_retry_loop(s, request): raise NotImplementedError
            async def send_message(s, route_key, data, response_dto_type=EmptyDto, span_key=None):
                if me.mode == "exc": raise ValueError("x")
                return response_dto_type()
        @buffered_sender(Cl(), "s.o", Msg, EmptyDto, wait_period=0, page_size=2, max_retries=1)
        async def o(i): return Msg(i=i)
        self.snd = o
    async def conn(self):
        if self.conns: return self.conns.pop()
        while True:
            try: return await asyncio.open_unix_connection(UDS, limit=1 << 24)
            except (FileNotFoundError, ConnectionRefusedError): await asyncio.sleep(0)
    async def call(self, route, data):
        c = await self.conn()
        c[1].write((json.dumps(dict(route_key=route, span_key=dict(trace_id=str(uuid.uuid4()), span_id=os.urandom(8).hex()), data=data)) + "\n").encode())
        r = json.loads(await c[0].readline())
        self.conns.append(c)
        return r["status"], r["data"]
    # ---------------------------------------------------------------- observation of statistics
    def flat(self, d, p=""):
        out = []
        for k, v in d.items():
            if isinstance(v, dict): out += self.flat(v, f"{p}{k}.")
            else: out.append([p + k, v])
        return out
    @staticmethod
    def num(v, f):
        x = v * f
        return round(x) if isinstance(v, (int, float)) and abs(x - round(x)) < 1e-4 else -999
    def obs(self, st, ts, hist=False):
        e, u, q = [], [], []
        def get(path):
            d = st
            for k in path.split("."):
                if not isinstance(d, dict) or k not in d: return None
                d = d[k]
            return d
        for r in EPS:
            d = get("endpoint_data." + r)
            if isinstance(d, dict) and all(x in d for x in ("call_count", "p95", "p99")):
                e.append([r, self.num(d["call_count"], 1), self.num(d["p95"], 800) if d["p95"] != -1 else -100, self.num(d["p99"], 800) if d["p99"] != -1 else -100])
        for k in QS:
            v = get(k)
            if v is not None: q.append([k, self.num(v, 1)])
        for k, v in self.flat(st):
            if k.split(".")[0] in ("endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "timestamp", "uptime", "gather_period", "application"): continue
            u.append([k, self.num(v, 8)])
        m = int(st.get("gather_period") == GP and st.get("application") == dict(name="stt", instance="0") and abs(st.get("timestamp", 0) - ts) < 1e-3)
        return dict(e=e, u=u, q=q, m=m)
    # ---------------------------------------------------------------- operations
    async def one(self, t, op):
        n = op[0]
        if n == "call":
            _, x, d, o = op
            async def go():
                st, _ = await self.call("s.p" if o == "paused" else x if o != "unknown" else "s.nope", dict(d=d / 8, o=o) if o != "bad" else dict(d="x"))
                self.ev("fin", x=x, d=d if o not in ("unknown", "bad", "paused") else 0, ok=int(st == 0), tm=t + (d if o not in ("unknown", "bad", "paused") else 0))
            self.tasks.append(asyncio.create_task(go()))
        elif n == "edge":               # a call that ends at a moment at which statistics are gathered, or y steps of the loop later
            _, x, d, o, y = op
            async def go():
                st, _ = await self.call(x, dict(d=d / 8, o=o, y=y))
                if st == 0: self.edge[x] = self.edge.get(x, 0) + 1; self.edgeu += o == "inc"
            self.tasks.append(asyncio.create_task(go()))
        elif n == "tot":
            st, d = await self.call("eco.statistics.get", dict(type="full")); s2, c = await self.call("eco.statistics.get", dict(type="current"))
            o = [self.obs(h, 0) for h in (d["statistics"] if st == 0 else []) + ([c["statistics"]] if s2 == 0 else [])]
            self.ev("tot", tm=0, obs=o, n=[[x, self.edge.get(x, 0)] for x in EPS[:5]], u=[["edge.n", 8 * self.edgeu], ["edge.m", -4 * self.edgeu]])
        elif n in ("set", "inc", "dec"):
            k = StatisticsKeeper(); v = op[2] / 8
            if n == "set": k.set_statistic_value(op[1], v)
            elif op[3]: (k.increment if n == "inc" else k.decrement)(op[1], v)
            else: (k.increment if n == "inc" else k.decrement)(op[1])
            self.ev(n, k=op[1], v=op[2] if n == "set" or op[3] else 8, tm=t)
        elif n in ("push", "out"):
            if n == "push":
                st, _ = await self.call("s.q", dict(i=1)); self.ev("fin", x="s.q", d=0, ok=int(st == 0), tm=t); k = QS[0]
            else: await self.snd(1); k = QS[2]
            self.sz[k] += 1; self.ev("siz", k=k, v=self.sz[k], tm=t)
        elif n == "drain":
            self.mode = op[1]
            a = ("eco.buffered_handler.processing", 0, "s.q") if op[2] == "q" else ("eco.buffered_sender.send_process", 2, "s.o")
            await self.call(a[0] + ".unpause", dict(queue_route_key=a[2]))
            for _ in range(400): await asyncio.sleep(0)
            await self.call(a[0] + ".pause", dict(queue_route_key=a[2]))
            n0 = self.sz[QS[a[1]]]
            self.sz[QS[a[1]]] = 0; self.ev("siz", k=QS[a[1]], v=0, tm=t)
            if op[1] == "exc": self.sz[QS[a[1] + 1]] += n0; self.ev("siz", k=QS[a[1] + 1], v=self.sz[QS[a[1] + 1]], tm=t)
        elif n == "clearq":
            b = "eco.buffered_handler" if op[1] == "q" else "eco.buffered_sender"; k = QS[1] if op[1] == "q" else QS[3]
            await self.call(b + ".errors.clear", dict(queue_route_key="s." + ("q" if op[1] == "q" else "o")))
            self.sz[k] = 0; self.ev("siz", k=k, v=0, tm=t)
        elif n in ("cur", "gat", "ful"):
            st, d = await self.call("eco.statistics.get", dict(type=dict(cur="current", gat="gathered", ful="full")[n]))
            d = d["statistics"] if st == 0 else [] if n == "ful" else {}
            now = time.time()
            if n == "cur": o = [self.obs(d, now)]
            else:
                hist = d if n == "ful" else [d] if d else []
                k = int((now - self.T0) // GP)          # the newest snapshot was taken then
                o = [self.obs(h, self.T0 + (k - j) * GP) for j, h in enumerate(hist)]
            self.ev(n, tm=t, obs=o)
            self.ev("fin", x="eco.statistics.get", d=0, ok=int(st == 0), tm=t)
        # ---- error states
        elif n == "einc": ErrorStateList().increment(op[1], op[2]); self.ev("inc", k=op[1].upper(), d=op[2])
        elif n == "esome": ErrorStateList().clear_some(op[1], op[2]); self.ev("some", k=op[1].upper(), n=op[2])
        elif n == "eall": ErrorStateList().clear_all(op[1]); self.ev("all", k=op[1].upper())
        elif n == "eclr":
            st, d = await self.call("eco.error_states.clear", dict(error_id=op[1], count=op[2]))
            self.ev("clr", k=op[1].upper(), n=op[2], obs=self.errs(d["errors"] if st == 0 else [{}]))
        elif n == "eget":
            st, d = await self.call("eco.error_states.get", {})
            self.ev("get", obs=self.errs(d["errors"] if st == 0 else [{}]))
        elif n == "elist": self.ev("get", obs=self.errs([x.to_dict() for x in ErrorStateList().get_error_states()]))
        elif n == "ejson": self.ev("get", obs=self.errs(json.loads(ErrorStateList().to_json())))
        elif n == "eobj": self.ev("get", obs=[[x.get_id(), x.get_description(), x.get_error_count()] for x in ErrorStateList().get_error_states() if x.is_set()])
    def errs(self, l): return [[e.get("error_id", "?"), e.get("description", "?"), e.get("count", -1)] for e in l]
    async def run(self):
        try:
            loop = asyncio.get_running_loop()
            self.T0, t0 = time.time(), loop.time()
            self.sz = {k: 0 for k in QS}; self.edge, self.edgeu = {}, 0
            if "stats" in self.sc:
                self.ev("reset", eps=EPS, qs=QS, hl=HL, gp=GP)
                await self.call("eco.buffered_handler.processing.pause", dict(queue_route_key="s.q"))
                await self.call("eco.buffered_sender.send_process.pause", dict(queue_route_key="s.o"))
                await self.call("eco.buffered_handler.receiving.pause", dict(queue_route_key="s.p"))
            else: self.ev("reset")
            for t, op in self.sc["ops"]:
                d = t0 + t / 8 - loop.time()
                if d > 0: await asyncio.sleep(d)
                await self.one(t, op)
            if self.tasks: await asyncio.gather(*self.tasks)
        except Exception as e:
            import traceback
            self.ev("broken", why=f"{type(e).__name__}: {e} " + traceback.format_exc()[-300:])
        with open(f"{SCRATCH}/out.tmp", "w") as f: json.dump(self.tr, f)
        os.rename(f"{SCRATCH}/out.tmp", f"{SCRATCH}/out.json")
        for w in self.conns: w[1].close()
        raise asyncio.CancelledError()

def child(sc):
    asyncio.set_event_loop_policy(Policy())
    me = Script(sc); me.build()
    class Stt(ApplicationBase):
        async def setup_tasks(s, tasks): tasks.append(asyncio.create_task(me.run()))
    with Stt() as app: app.start()

out = []
for sc in PAYLOAD["scenarios"]:
    for f in [f"{SCRATCH}/out.json", UDS] + [f"{SCRATCH}/buf/{x}" for x in os.listdir(f"{SCRATCH}/buf")]:
        try: os.unlink(f)
        except FileNotFoundError: pass
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
            child(sc); rc = 0
        except BaseException:
            import traceback; traceback.print_exc()
        finally: os._exit(rc)
    end = vloop.REAL_TIME() + 30
    while vloop.REAL_TIME() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.001)
    else:
        os.kill(pid, 9); os.waitpid(pid, 0)
    try: tr = json.load(open(f"{SCRATCH}/out.json"))
    except (OSError, ValueError):
        tr = [dict(ev="reset", eps=EPS, qs=QS, hl=HL, gp=GP), dict(ev="broken", why="ended without a result: " + open(f"{SCRATCH}/child.err").read()[-600:])]
    out.append(tr)
drv.result(dict(traces=out))
