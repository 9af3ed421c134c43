"""Real applications with tasks of their own (setup_tasks): requests, signals, failures; then started again."""
import drv, os, sys, json, socket, time, signal, random, asyncio
from drv import PAYLOAD, SCRATCH
sys.argv[0] = f"{SCRATCH}/back.py"
SOCK, EV = f"{SCRATCH}/back_0.uds.sock", f"{SCRATCH}/events"
os.environ.update(ECOENV_UDS_BACK_0=f"{SCRATCH}/DEFAULT", ECOENV_STAT_GP="100000", ECOENV_LOG_DIR=SCRATCH, ECOENV_LOCK_DIR=SCRATCH)
import logging
from pydantic import BaseModel
from ekosis.application_base import ApplicationBase
from ekosis.requests.endpoint import endpoint
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.clients import TransientUDSClient
from ekosis.data_transfer_objects import EmptyDto
logging.disable(logging.CRITICAL)
class Do(BaseModel): what: str = ""; j: int = 0
class Got(BaseModel): ok: bool = True

def child(life):
    ev = os.open(EV, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    def emit(e, j=0): os.write(ev, (json.dumps(dict(ev=e, j=j)) + "\n").encode())
    todo = {}
    @buffered_sender(TransientUDSClient(f"{SCRATCH}/nowhere", timeout=1, max_retries=1), "far.note", Do, wait_period=life.get('wait', 0.02), max_retries=10 ** 9)
    async def note(j, **kw): return Do(j=j)
    @endpoint("bg.do", Do)
    async def do(dto: Do):
        emit("req")
        if dto.j: todo[dto.j].put_nowait(dto.what)
        for _ in range(6): await asyncio.sleep(0)
        return Got()
    async def task(j, clean):
        todo[j] = asyncio.Queue(); emit("start", j)
        if clean == "short": emit("over", j); return
        try:
            while True:
                what = await todo[j].get()
                if what == "beat": emit("beat", j)
                elif what == "finish": emit("over", j); return j
                elif what == "fail": emit("fail", j); raise RuntimeError("a task fails")
        except asyncio.CancelledError:
            emit("cancel", j)
            if clean == "queue": await note(j); emit("queued", j)
            if clean == "raise": raise ValueError("a clean-up fails")
            raise
    class Back(ApplicationBase):
        async def setup_tasks(s, tasks):
            for x in life["tasks"]: tasks.append(asyncio.create_task(task(x["j"], x["clean"])))
    with Back() as app: app.start()

class Run:
    def __init__(s, w): s.w, s.tr, s.pos, s.pid = w, [dict(ev="reset")], 0, 0
    def drain(s):
        try:
            with open(EV, "rb") as f: f.seek(s.pos); b = f.read()
        except FileNotFoundError: return
        n = b.rfind(b"\n") + 1; s.pos += n
        s.tr += [json.loads(x) for x in b[:n].splitlines()]
    def poll(s):
        p, st = os.waitpid(s.pid, os.WNOHANG)
        if not p: return None
        s.pid = 0
        return "exit" if st == 0 else f"status {st}"
    def start(s, life):
        try: os.unlink(SOCK)
        except OSError: pass
        s.pid = os.fork()
        if s.pid == 0:
            rc = 1
            try:
                n = os.open(f"{SCRATCH}/child.err", os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600); os.dup2(n, 1); os.dup2(n, 2)
                child(life); rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally: os._exit(rc)
        end = time.time() + 30
        while time.time() < end:
            try:
                s.k = socket.socket(socket.AF_UNIX); s.k.settimeout(15); s.k.connect(SOCK); s.f = s.k.makefile("rb"); return
            except OSError: pass
            if s.poll(): return
            time.sleep(0.001)
    def call(s, route, data):
        try:
            s.k.sendall((json.dumps(dict(route_key=route, span_key=dict(trace_id="00000000-0000-0000-0000-000000000001", span_id="0000000000000001"), data=data)) + "\n").encode())
            r = json.loads(s.f.readline()); return r["status"], r["data"]
        except (OSError, ValueError): return 9999, None
    def finish(s):
        end = time.time() + 15; x = None
        while time.time() < end and not x: x = s.poll() if s.pid else "gone"; time.sleep(0.001)
        if not x: os.kill(s.pid, signal.SIGKILL); os.waitpid(s.pid, 0); s.pid = 0; x = "still running"
        s.drain(); s.tr.append(dict(ev="down", x=x))
        return x == "exit"
    def boot(s):
        s.call("eco.buffered_sender.send_process.pause", dict(queue_route_key="far.note")); end = time.time() + 3; n = 9999; last = None
        while time.time() < end:                      # one may be on its way at this moment
            st, d = s.call("eco.buffered_sender.data", dict(queue_route_key="far.note"))
            try: n = sum(d["queue_data"]["database_sizes"].values())
            except Exception: n = 9999
            if n == s.due(): break
            time.sleep(0.01)
        s.drain(); s.tr.append(dict(ev="boot", n=n))
        s.call("eco.buffered_sender.send_process.unpause", dict(queue_route_key="far.note"))
    def due(s): return sum(1 for e in s.tr if e["ev"] == "queued")
    def run(s):
        ok = True; beats = {}
        try:
            for life in s.w["lives"] + [dict(tasks=[], ops=[["end", 0, "TERM"]])]:
                beats = {}; s.tr.append(dict(ev="life", tasks=life["tasks"])); s.start(life)
                if not s.pid: s.tr.append(dict(ev="down", x="did not start")); break
                ended = False
                if life["ops"][0][0] != "end" or not life["tasks"]: s.boot()
                for n, j, w in life["ops"]:
                    if n == "look": st, _ = s.call("bg.do", dict())
                    elif n in ("beat", "finish"):
                        beats[j] = beats.get(j, 0) + (n == "beat"); st, _ = s.call("bg.do", dict(what=n, j=j))
                    elif n == "fail": s.drain(); s.tr.append(dict(ev="end")); s.call("bg.do", dict(what=n, j=j)); ended = True; break
                    elif n == "end": s.drain(); s.tr.append(dict(ev="end")); os.kill(s.pid, getattr(signal, "SIG" + w)); ended = True; break
                    s.drain(); s.tr.append(dict(ev="op", n=n, j=j, st=st, beats=beats.get(j, 0)))
                if not ended: s.tr.append(dict(ev="end")); os.kill(s.pid, signal.SIGTERM)
                if not s.finish(): break
                s.k.close()
        finally:
            if s.pid: os.kill(s.pid, signal.SIGKILL); os.waitpid(s.pid, 0)
            for n in os.listdir(SCRATCH):
                if n.endswith(".sqlite") or n == "events": os.unlink(f"{SCRATCH}/{n}")
        return s.tr

drv.result(dict(traces=[Run(w).run() for w in PAYLOAD["walks"]]))
