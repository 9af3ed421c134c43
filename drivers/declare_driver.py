"""A real application whose endpoints and senders are declared in every way there is; it calls itself over its own sockets."""
import drv, os, sys, random, functools, asyncio, signal, threading
from drv import PAYLOAD, SCRATCH
_p = os.getpid(); HOST = f"127.{3 + _p % 240}.{(_p >> 8) % 256}.{(_p >> 16) % 250 + 3}"
sys.argv[0] = f"{SCRATCH}/decl.py"
import socket
def port(kind):
    s = socket.socket(socket.AF_INET, kind); s.bind((HOST, 0)); p = s.getsockname()[1]; s.close(); return p
TCP, UDP = port(socket.SOCK_STREAM), port(socket.SOCK_DGRAM)
os.environ.update({"ECOENV_UDS_DECL_0": f"{SCRATCH}/DEFAULT", "ECOENV_TCP_DECL_0": f"{HOST}:{TCP}", "ECOENV_UDP_DECL_0": f"{HOST}:{UDP}", "ECOENV_STAT_GP": "100000"})
from pydantic import BaseModel
from ekosis.application_base import ApplicationBase
from ekosis.requests.endpoint import endpoint
from ekosis.requests.buffered_endpoint import buffered_endpoint
from ekosis.sending.sender import sender
from ekosis.sending.sender_base import SenderBase
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.middleware.middleware_base import MiddlewareBase
from ekosis.middleware.manager import MiddlewareManager
from ekosis.clients import PersistedTCPClient, PersistedUDSClient, UDPClient, TransientTCPClient, TransientUDSClient
from ekosis.data_transfer_objects import BufferedEndpointResponseDTO, EmptyDto, SpanKey
from ekosis.data_transfer_objects.queue_management import QManagementRequestDto, QManagementResponseDto

class A(BaseModel): id: int; v: int
class B(BaseModel):
    id: int; n: int = 7
    def __len__(self): return 0         # a DTO may well be falsy
class P(BaseModel):
    id: int; a: int
    def __len__(self): return 0
class Q(BaseModel): id: int; a: int; b: int = 3
TY = dict(A=A, B=B, P=P, Q=Q, E=EmptyDto)
NAME = {v: k for k, v in TY.items()}
def fields(o):
    d = o if isinstance(o, dict) else o.model_dump() if isinstance(o, BaseModel) else {}
    return dict({k: (v if isinstance(v, int) else -1) for k, v in d.items()}, _=0)

KEYS = {}
def kid(k):
    if not isinstance(k, SpanKey): return -1
    return KEYS.setdefault(str(k), len(KEYS) + 1)
OBS = dict(fn=[], mw=[], h=[])
TR = [dict(ev="reset")]

class Watch(MiddlewareBase):
    async def before_routing(s, **kw):
        d = kw["protocol_dto"]
        if d.route_key.startswith("d."): OBS["mw"].append(dict(r=d.route_key, k=kid(d.span_key), d=fields(d.data)))
        return kw["protocol_dto"]
    async def after_routing(s, **kw): return kw["response_dto"]

def make(d):
    """The function of a declaration: its signature is d['sig'], the rest is what it notes."""
    f, ps, kind, rty = d["f"], d["ps"], d["kind"], d["rty"]
    async def seen(got, x):
        dto = got.get("dto")
        if got.pop("__direct", None) is None:
            OBS["h"].append(dict(f=f, ps=sorted(got), ty=NAME.get(type(dto), "?"), fl=fields(dto), k=kid(got["span_key"]) if "span_key" in got else 0, x=x))
        if kind == "bep": return True
        return TY[rty](id=getattr(dto, "id", 0), a=10 * f, **(dict(b=5) if rty == "Q" else {}))
    g = "".join(f"{p!r}: {p}, " for p in ps)
    body = f"return await seen({{{g}**({{'__direct': 1}} if DIRECT[0] else {{}})}}, {'extra' if 'extra' in d['sig'] else 5})"
    ns = dict(seen=seen, SpanKey=SpanKey, BaseModel=BaseModel, DIRECT=DIRECT)
    if d["style"] == "method":
        exec(f"class K:\n  async def f(self{', ' if d['sig'] else ''}{d['sig']}):\n    {body}\n", ns); return ns["K"]().f
    exec(f"async def f({d['sig']}):\n  {body}\n", ns)
    fn = ns["f"]
    if d["style"] == "wrapped":
        @functools.wraps(fn)
        async def w(*a, **k): return await fn(*a, **k)
        return w
    return fn
DIRECT = [False]

def run_now(co):
    out = []
    def go():
        DIRECT[0] = True
        try: out.append(asyncio.run(co()))
        finally: DIRECT[0] = False
    t = threading.Thread(target=go); t.start(); t.join(10)
    return out[0] if out else None

class Plain(SenderBase):
    def __init__(self, client, route, sty, rty): super().__init__(client, route, TY[sty], rty)
    async def send(self, a, k):
        OBS["fn"].append(dict(a=fields(a), k=kid(k) if k else 0))
        return await self.send_data(self._request_dto_type(**{x: v for x, v in a.items() if x != "_"}), k) if k else await self.send_data(self._request_dto_type(**{x: v for x, v in a.items() if x != "_"}))

def client(kind):
    kw = dict(timeout=30, max_retries=2)
    u = f"{SCRATCH}/decl_0.uds.sock"
    return dict(tuds=lambda: TransientUDSClient(u, **kw), uds=lambda: PersistedUDSClient(u, **kw), tcp=lambda: PersistedTCPClient(HOST, TCP, **kw),
                ttcp=lambda: TransientTCPClient(HOST, TCP, **kw), udp=lambda: UDPClient(HOST, UDP, **kw))[kind]()

def declare(d):
    fn = make(d); ok, back = True, None
    args = [d["r"]] + ([TY[d["ty"]]] if d["ty"] != "E" or d["explicit"] else [])
    try:
        if d["kind"] == "ep": back = endpoint(*args)(fn)
        else: back = buffered_endpoint(*args, **d["opt"])(fn)
    except Exception: ok = False
    direct = 10 * d["f"]
    if ok and d["kind"] == "ep" and not d["need"]:
        r = run_now(lambda: back(**{p: dict(dto=B(id=1), span_key=SpanKey.generate())[p] for p in d["ps"]}))
        direct = getattr(r, "a", -1)
    TR.append(dict(ev="decl", r=d["r"], kind=d["kind"], f=d["f"], ps=d["ps"], need=d["need"], ty=d["ty"], rty=d["rty"], ok=ok, dir=direct))

def sdeclare(s):
    c = client(s["client"]); rty = BufferedEndpointResponseDTO if s["rty"] == "K" else TY[s["rty"]]
    sty = TY[s["sty"]]
    def note(a, k):
        OBS["fn"].append(dict(a=dict(a, _=0), k=kid(k) if k else 0))
        return sty(**a)
    if s["form"] == 0:
        async def fn(*args, **kw): return note({x: kw[x] for x in s["fields"]}, kw.get("span_key"))
    elif s["form"] == 1:
        async def fn(*args, span_key=None, **kw): return note(dict(zip(s["fields"], args)), span_key)
    else:
        async def fn(*args, **kwargs): return note(dict(zip(s["fields"], args)), kwargs.get("span_key"))
    if s["kind"] == "send": g = sender(c, s["r"], rty)(fn)
    elif s["kind"] == "bsend":
        g = buffered_sender(*([c, s["r"], sty] + ([rty] if s["rty"] != "E" or s["explicit"] else [])), **s["opt"])(fn)
    else: g = Plain(c, s["r"], s["sty"], rty).send
    TR.append(dict(ev="sdecl", s=s["s"], r=s["r"], kind=s["kind"], sty=s["sty"], rty=s["rty"]))
    return g

class App(ApplicationBase):
    async def setup_tasks(self, tasks): tasks.append(asyncio.create_task(script()))

SND = {}
async def size(kind, route):
    c = TransientUDSClient(f"{SCRATCH}/decl_0.uds.sock", timeout=30)
    r = await c.send_message(f"eco.{kind}.data", QManagementRequestDto(queue_route_key=route), QManagementResponseDto)
    q = r.queue_data
    q = q if isinstance(q, dict) else q.model_dump()
    return q["database_sizes"]["error"]

async def script():
    try:
        for _ in range(500):
            if os.path.exists(f"{SCRATCH}/decl_0.uds.sock"): break
            await asyncio.sleep(0.02)
        await asyncio.sleep(0.1)
        keys = {}
        kinds = {d["r"]: d for d in reversed(PAYLOAD["decls"])}
        for c in PAYLOAD["calls"]:
            s = next(x for x in PAYLOAD["senders"] if x["s"] == c["s"])
            k = keys.setdefault(c["k"], SpanKey.generate()) if c["k"] else None
            for q in OBS.values(): q.clear()
            d = kinds.get(s["r"])
            bep = d is not None and d["kind"] == "bep"
            eb = await size("buffered_handler", s["r"]) if bep else 0
            es = await size("buffered_sender", s["r"]) if s["kind"] == "bsend" else 0
            for q in OBS.values(): q.clear()
            ev = dict(ev="call", s=c["s"], a=dict(c["a"], _=0), k=kid(k) if k else 0, ty="", fl=dict(_=0), rk=0)
            kw = dict(span_key=k) if k else {}
            try:
                if s["kind"] == "class": r = await SND[c["s"]](dict(c["a"]), k)
                elif s["form"] == 0: r = await SND[c["s"]](**c["a"], **kw)
                else: r = await SND[c["s"]](*[c["a"][x] for x in s["fields"]], **kw)
                ev["o"] = "none" if r is None else "ok"
                if isinstance(r, BufferedEndpointResponseDTO): ev["rk"] = kid(r.span_key)
                elif r is not None: ev.update(ty=NAME.get(type(r), "?"), fl=fields(r))
            except Exception as e: ev["o"] = type(e).__name__
            if bep or s["kind"] == "bsend":                      # what was accepted ends at a function or in an error queue
                for _ in range(400):
                    if OBS["h"] or (s["kind"] != "bsend" and ev["o"] != "ok"): break
                    if bep and await size("buffered_handler", s["r"]) > eb: break
                    if s["kind"] == "bsend" and await size("buffered_sender", s["r"]) > es: break
                    await asyncio.sleep(0.01)
                await asyncio.sleep(0.005)
            TR.append(dict(ev, **{n: list(q) for n, q in OBS.items()}))
    except BaseException as e:
        TR.append(dict(ev="dead", why=f"{type(e).__name__}: {e}"))
    drv.result(dict(traces=[TR])); os._exit(0)

MiddlewareManager().add(Watch())
try:
    with App() as app:
        for x in PAYLOAD["order"]:
            if x[0] == "d": declare(PAYLOAD["decls"][x[1]])
            else: s = PAYLOAD["senders"][x[1]]; SND[s["s"]] = sdeclare(s)
        app.start()
except BaseException as e:
    TR.append(dict(ev="dead", why=f"{type(e).__name__}: {e}"))
TR.append(dict(ev="dead", why="ended"))
drv.result(dict(traces=[TR]))
