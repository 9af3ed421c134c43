import drv, asyncio, os, shutil, logging
from drv import PAYLOAD, SCRATCH, payload_value
from uuid import UUID
from typing import Any
from pydantic import BaseModel
from ekosis.queues.paginated_queue import PaginatedQueue
from ekosis.data_transfer_objects import SpanKey, SpanId
import sqlalchemy
from sqlalchemy import event
logging.disable(logging.CRITICAL)

class Obj(BaseModel):
    data: Any
    note: str | None = "n0"

def fields(v):
    """A third of the objects leaves the field to its default, a third has explicitly nothing there."""
    return dict(data=payload_value(v), **({}, dict(note=None), dict(note=f"other {v}"))[v % 3])

def key(k):
    # neighbouring keys share the trace id or the span id, so both halves matter
    return SpanKey(trace_id=UUID(int=(k // 2) * 7919 + 5), span_id=SpanId(int_=(k % 2) * (1 << 63) + (k // 4) * 3 + 1))

KEYS  = {str(key(k)): k for k in range(1, 400)}
assert len(KEYS) == 399

def kid(s):
    return KEYS.get(str(s), -1)

def vid(o):
    if o is None:
        return []
    d = o.data if isinstance(o, Obj) else None
    n = d.get("n", -1) if isinstance(d, dict) else -1
    return [n if isinstance(n, int) and n > 0 and o == Obj(**fields(n)) else -1]

class Snapper:
    """Copies of the queue file taken just before each commit inside one operation."""
    def __init__(self):
        self.path, self.on, self.snaps, self.n = None, False, [], 0
        event.listen(sqlalchemy.engine.Engine, "commit", self.commit)
    def commit(self, conn):
        if self.on and len(self.snaps) < 4:
            self.snaps.append(self.copy())
    def copy(self):
        self.n += 1
        dst = f"{SCRATCH}/snap{self.n}.sqlite"
        for ext in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(self.path + ext):
                shutil.copyfile(self.path + ext, dst + ext)
        return dst

def rm(p):
    for ext in ("", "-journal", "-wal", "-shm"):
        try: os.unlink(p + ext)
        except FileNotFoundError: pass

def opened(path, ps):
    return PaginatedQueue(path, Obj, page_size=ps)

def closed(q):
    try:
        q.session.close(); q.database_engine.dispose()
    except Exception:
        pass

async def observe(q):
    o = {}
    try: o["size"] = int(q.size())
    except Exception as e: o["size"] = -1
    try: o["empty"] = 1 if q.is_empty() else 0
    except Exception as e: o["empty"] = -1
    try: o["f3"] = [kid(x) for x in await q.get_first_x_span_keys(3)]
    except Exception as e: o["f3"] = [-2]
    try: o["fall"] = [kid(x) for x in await q.get_first_x_span_keys(100000)]
    except Exception as e: o["fall"] = [-2]
    return o

async def survivors(path):
    """What a fresh process would find in this copy of the file."""
    try:
        q = opened(path, 100000)
        r = [kid(x) for x in await q.get_first_x_span_keys(100000)]
        vals = []
        while len(vals) <= len(r) + 2:
            o = await q.pop()
            if o is None: break
            vals.append(vid(o)[0])
        closed(q)
        # the payloads must be those of the keys (payload id = value id; v ids are checked by the pop results)
        return r if len(vals) == len(r) and -1 not in vals else [-2]
    except Exception as e:
        return [-3]
    finally:
        rm(path)

SN = Snapper()

async def run(walk, n):
    path = f"{SCRATCH}/q{n}.sqlite"
    ps   = walk["ps"]
    SN.path = path
    q = opened(path, ps)
    tr = [dict(ev="reset", ps=ps)]
    snapevery = walk.get("snap", 0)
    for i, op in enumerate(walk["ops"]):
        f = op.split(); name = f[0]; a = int(f[1]) if len(f) > 1 else 0
        SN.on, SN.snaps = bool(snapevery) and i % snapevery == 0, []
        v = int(f[2]) if len(f) > 2 else a
        if name in ("restart", "crash"):
            nps = a or ps
            if name == "restart":
                r = []
                try: q.shut_down()
                except Exception as e: r = [-1]
                SN.on = False
                closed(q)
                try: q = opened(path, nps)
                except Exception as e:
                    tr.append(dict(ev="restart", ps=nps, r=[-2], size=-1, empty=-1, f3=[], fall=[], snaps=[])); break
                e = dict(ev="restart", ps=nps, r=r, snaps=[await survivors(p) for p in SN.snaps])
            else:
                SN.on = False
                p = SN.copy(); closed(q)
                shutil.copyfile(p, path + ".x"); os.replace(path + ".x", path)
                surv = await survivors(p)
                try: q = opened(path, nps)
                except Exception as e:
                    tr.append(dict(ev="crash", ps=nps, r=[-2], size=-1, empty=-1, f3=[], fall=[], snaps=[])); break
                e = dict(ev="crash", ps=nps, r=surv, snaps=[])
            ps = nps
            e.update(await observe(q)); tr.append(e)
            continue
        try:
            if   name == "push":    r = [kid(await q.push(Obj(**fields(v)), key(a)))]
            elif name == "pop":     r = vid(await q.pop())
            elif name == "popk":    r = vid(await q.pop_span_key(key(a)))
            elif name == "inspect": r = vid(await q.inspect_span_key(key(a)))
            elif name == "first":   r = [kid(x) for x in await q.get_first_x_span_keys(a)]
            elif name == "clear":   await q.clear(); r = []
            else: raise SystemExit(f"unknown op {op}")
        except Exception as e:
            r = [-9]
        SN.on = False
        e = dict(ev="op", n=name, k=a, v=v, r=r, snaps=[await survivors(p) for p in SN.snaps])
        e.update(await observe(q)); tr.append(e)
    closed(q); rm(path)
    return tr

out = []
for n, w in enumerate(PAYLOAD["walks"]):
    out.append(asyncio.run(run(w, n)))
drv.result(dict(traces=out))
