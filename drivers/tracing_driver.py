"""A real application with tracing initiated, a collector that stores what it exports, and clients that share span keys."""
import drv, os, sys, atexit, json, http.server, gzip, signal, socket, time, random
from drv import PAYLOAD, SCRATCH
_p = os.getpid(); CHOST = f"127.{3 + _p % 240}.{(_p >> 8) % 256}.{(_p >> 16) % 250 + 3}"
SPANS = f"{SCRATCH}/spans"

def collector():
    from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
    class H(http.server.BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"
        def do_POST(s):
            b = s.rfile.read(int(s.headers["Content-Length"]))
            if s.headers.get("Content-Encoding") == "gzip": b = gzip.decompress(b)
            m = ExportTraceServiceRequest.FromString(b)
            with open(SPANS, "a") as f:
                for rs in m.resource_spans:
                    svc = next((a.value.string_value for a in rs.resource.attributes if a.key == "service.name"), "")
                    for ss in rs.scope_spans:
                        for x in ss.spans:
                            at = {a.key: (a.value.string_value or a.value.int_value or int(a.value.bool_value)) for a in x.attributes}
                            f.write(json.dumps(dict(svc=svc, name=x.name, trace=x.trace_id.hex(), id=x.span_id.hex(), parent=x.parent_span_id.hex(), path=s.path,
                                                    attrs=dict(trace=str(at.get("request.trace_id", "")), span=str(at.get("request.span_id", "")), route=str(at.get("request.route_key", "")),
                                                               n=at.get("request.retries", -1), ok=int(at.get("process.success", 0)) if "process.success" in at else -1))) + "\n")
            s.send_response(200); s.send_header("Content-Length", "0"); s.end_headers()
        def log_message(s, *a): pass
    srv = http.server.HTTPServer((CHOST, 0), H)
    return srv

srv = collector()
CPORT = srv.server_address[1]
CPID = os.fork()
if CPID == 0:
    try: srv.serve_forever()
    finally: os._exit(0)
srv.socket.close()
os.environ.update(NO_PROXY="*", no_proxy="*", ECOENV_EXTRA_OTLP_TRACES_ENDPOINT=f"http://{CHOST}:{CPORT}/v1/traces", OTEL_BSP_SCHEDULE_DELAY="600000")
import puppet
from puppet import *
from ekosis.middleware.middleware_base import MiddlewareBase
from ekosis.middleware.manager import MiddlewareManager
# puppet's own clean up of a life is SIGKILL: nothing is left to flush then
try:
    from ekosis_otlp_traces.setup import initiate_otlp_tracing
    WHY = ""
except Exception as e: WHY = f"{type(e).__name__}: {e}"
from opentelemetry import trace

class Quiet(MiddlewareBase):
    async def before_routing(s, **kw): await asyncio.sleep(0); return kw["protocol_dto"]
    async def after_routing(s, **kw): await asyncio.sleep(0); await asyncio.sleep(0); return kw["response_dto"]

class TChild(puppet.Child):
    def build(self):
        me = self
        first, quiet = PAYLOAD["first"], PAYLOAD["quiet"]
        if quiet == 1: MiddlewareManager().add(Quiet())
        if first: initiate_otlp_tracing()
        super().build()
        if not first: initiate_otlp_tracing()
        if quiet == 2: MiddlewareManager().add(Quiet())

        @endpoint("ctl.flush", Ctl)
        async def flush(dto: Ctl):
            return CtlOut(out=bool(trace.get_tracer_provider().force_flush()))

        @endpoint("ctl.pick", Ctl)
        async def pick(dto: Ctl):
            i, o = dto.arg
            g = [f for f in me.gates.get(dto.route, []) if not f.done()]
            if g: g[i % len(g)].set_result(o)
            return CtlOut(out=len(g))

    def add_snd(self, r, dto_type, c):
        if c["kind"] != "req": return super().add_snd(r, dto_type, c)
        me = self
        @endpoint(ROUTE(r), dto_type)
        async def handler(dto, span_key):
            o = await me.gate(r, kid(span_key), vid(dto))
            if o == "ok": return CtlOut(out=1)
            raise random.choice([RuntimeError("boom"), ValueError(), EX.ApplicationProcessingException("p") if hasattr(EX, "ApplicationProcessingException") else KeyError("k")])
    def run(self):
        super().run()
        atexit._run_exitfuncs()                                 # the child ends without, an application ends with
puppet.Child = TChild

class Run:
    def __init__(self, w):
        self.w, self.out, self.kind = w, {}, {c['r']: c['kind'] for c in w['conf']}
        self.app = App(w["conf"], random.Random(w["seed"]))
        self.nid, self.tr, self.half, self.life = 0, [], {}, 1
        self.rng = random.Random(w["seed"])
        try: os.unlink(SPANS)
        except FileNotFoundError: pass

    def note(self):
        """What happened: attempts that came to a verdict, answers that arrived."""
        for e in self.app.events():
            if e["e"] == "b" and e["w"] == 1: self.half[e["r"]] = e["n"]
            if e["e"] == "fin" and self.kind[e["r"]] == "ep":
                self.tr.append(dict(ev="proc", r=e["r"], k=e["k"], n=self.half.get(e["r"], -1), ok=int(e["o"] == "ok")))
        for i, f in list(self.out.items()):
            s = f if isinstance(f, socket.socket) else f._sock
            try:
                if not select.select([f], [], [], 0)[0]: continue
                b = f.recv(65536) if isinstance(f, socket.socket) else f.readline()
                st = json.loads(b)["status"]
            except (OSError, ValueError): st = -2
            f.close(); del self.out[i]
            self.tr.append(dict(ev="ans", id=i, st=st))

    def settle(self):
        self.app.call("ctl.settle", dict(arg=0.5)); self.note()

    def send(self, r, k, via):
        self.nid += 1
        self.tr.append(dict(ev="sent", r=r, k=k, id=self.nid))
        data = fields(k)
        msg = (json.dumps(dict(route_key=ROUTE(r), span_key=KEYJ[k], data=data)) + "\n").encode()
        host = lambda a: (a.split(":")[0], int(a.split(":")[1]))
        if via == "udp": s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.connect(host(ADDR["udp"]))
        elif via == "tcp": s = socket.socket(); s.connect(host(ADDR["tcp"]))
        else: s = socket.socket(socket.AF_UNIX); s.connect(SOCK)
        s.settimeout(15); s.sendall(msg); self.out[self.nid] = s

    def spans(self, flush=True):
        if flush: self.app.call("ctl.flush", {})
        q = []
        if os.path.exists(SPANS):
            for line in open(SPANS):
                x = json.loads(line)
                if not x["name"].startswith(("ctl.", "eco.")): x.pop("path"); q.append(x)
        self.tr.append(dict(ev="spans", spans=q))

    def run(self):
        a, w = self.app, self.w
        if not PAYLOAD.get("nokeys"): pass
        self.tr.append(dict(ev="reset", routes={c["r"]: ROUTE(c["r"]) for c in w["conf"]}, svc="puppet-0",
                            keys={str(k): dict(trace=key(k).trace_id.hex, uuid=str(key(k).trace_id), span=str(key(k).span_id)) for k in range(1, w["nk"] + 1)}))
        if WHY: self.tr.append(dict(ev="dead", why=WHY)); return self.tr
        try:
            if not a.start(): self.tr.append(dict(ev="dead", why="did not start")); return self.tr
            for op in w["ops"]:
                n = op[0]
                if n == "send":
                    for r, k, via in op[1]: self.send(r, k, via)
                elif n == "pick": a.call("ctl.pick", dict(route=op[1], arg=[op[2], op[3]]))
                elif n == "hold": a.call("ctl.hold", dict(route=op[1], arg=op[2]))
                elif n == "let": a.call("ctl.let", dict(route=op[1]))
                elif n == "repall": a.call("eco.buffered_handler.errors.reprocess.all", dict(queue_route_key=ROUTE(op[1])))
                elif n == "term":
                    if self.rng.random() < 0.5: self.settle(); self.spans()
                    x = a.kill(SIG[op[1]]); self.note()
                    for i, f in list(self.out.items()): f.close(); self.tr.append(dict(ev="ans", id=i, st=-2))
                    self.out = {}
                    self.spans(flush=False)                     # an orderly end exports what was still to be sent
                    if x != "exit": self.tr.append(dict(ev="dead", why=x)); return self.tr
                    self.tr.append(dict(ev="restart")); self.half = {}
                    if not a.start(): self.tr.append(dict(ev="dead", why="did not restart")); return self.tr
                self.settle()
            for c in w["conf"]:                                # let everything finish
                for _ in range(60):
                    st, d, ok = a.call("ctl.pick", dict(route=c["r"], arg=[0, "ok"]))
                    a.call("ctl.let", dict(route=c["r"])); self.settle()
                    if st != 0 or not d["out"]: break
            self.settle(); self.spans()
        finally:
            for f in self.out.values(): f.close()
            a.stop()
        return self.tr
import select
SIG = dict(TERM=signal.SIGTERM, INT=signal.SIGINT, HUP=signal.SIGHUP)
try: drv.result(dict(traces=[Run(w).run() for w in PAYLOAD["walks"]]))
finally: os.kill(CPID, signal.SIGKILL)
