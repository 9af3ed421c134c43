"""One of the two applications of a chain: a takes requests and sends them on to b. conf: $CHAIN."""
import json, os, sys, time, random
C = json.load(open(os.environ["CHAIN"]))
D = C["dir"]
for s in ("buf", "log", "lock"): os.makedirs(f"{D}/{s}", exist_ok=True)
sys.argv = [f"{D}/chain_{C['role']}.py", "-i", "0", "-lfo"]
N = f"CHAIN_{C['role'].upper()}_0"
os.environ.update({"ECOENV_BUFFER_DIR": f"{D}/buf", "ECOENV_LOG_DIR": f"{D}/log", "ECOENV_LOCK_DIR": f"{D}/lock", f"ECOENV_UDS_{N}": f"{D}/DEFAULT",
                   "ECOENV_STAT_GP": "100000", "ECOENV_LOG_BUF_SIZE": "0"})
if C.get("tcp"): os.environ[f"ECOENV_TCP_{N}"] = C["tcp"]
if C.get("udp"): os.environ[f"ECOENV_UDP_{N}"] = C["udp"]
import asyncio, logging
from typing import Any
from pydantic import BaseModel
from ekosis.application_base import ApplicationBase
from ekosis.requests.buffered_endpoint import buffered_endpoint
from ekosis.sending.buffered_sender import buffered_sender
from ekosis.clients import PersistedTCPClient, PersistedUDSClient, UDPClient, TransientTCPClient, TransientUDSClient
from ekosis.data_transfer_objects import BufferedEndpointResponseDTO
logging.disable(logging.CRITICAL)
KEYS = C["keys"]
ev = os.open(C["events"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
def emit(**e): os.write(ev, (json.dumps(dict(e, ms=int(time.monotonic() * 1000000))) + "\n").encode())
def kid(k): return KEYS.get(str(k), 0)
rng = random.Random(C["seed"])
def calm(): return os.path.exists(C["calm"])

class Msg(BaseModel):
    data: Any

def verdict():
    x = rng.random()
    return "ok" if calm() or x > C["fail"] else "exc" if x < C["fail"] * C["exc"] else "fail"

if C["role"] == "a":
    kw = dict(timeout=C["timeout"], max_retries=C["tries"], retry_delay=0.02)
    h, p = C["to"] if len(C["to"]) == 2 else (None, None)
    client = (PersistedTCPClient(h, p, **kw) if C["client"] == "tcp" else TransientTCPClient(h, p, **kw) if C["client"] == "ttcp" else UDPClient(h, p, **kw) if C["client"] == "udp"
              else PersistedUDSClient(C["to"][0], **kw) if C["client"] == "uds" else TransientUDSClient(C["to"][0], **kw))
    @buffered_sender(client, "b.in", Msg, BufferedEndpointResponseDTO, wait_period=C["wait"], page_size=C["ps"], max_retries=C["maxr"])
    async def forward(data, span_key=None): return Msg(data=data)

    @buffered_endpoint(C["aroute"], Msg, page_size=C["ps"], max_retries=3)
    async def a_in(dto, span_key):
        await asyncio.sleep(rng.choice([0, 0, 0.01]))
        v = verdict()
        if v == "exc": raise RuntimeError("a")
        if v == "fail": return False
        emit(ev="hand", k=kid(span_key))
        await forward(dto.data, span_key=span_key)
        return True
else:
    @buffered_endpoint("b.in", Msg, page_size=C["ps"], max_retries=C["maxr"])
    async def b_in(dto, span_key):
        emit(ev="hs", k=kid(span_key), v=dto.data["n"] if isinstance(dto.data, dict) and dto.data in C["values"] else -1)
        await asyncio.sleep(rng.choice([0, 0, 0.005, 0.03]))
        v = verdict()
        emit(ev="he", k=kid(span_key), o=v)
        if v == "exc": raise ValueError("b")
        return v == "ok"

class App(ApplicationBase): pass
with App() as app:
    app.start()
