"""Real clients against a scripted server in one virtual-time loop."""
import drv, vloop, os, sys, json, asyncio, logging, random, select, socket, struct
from drv import PAYLOAD, SCRATCH
from uuid import UUID
from pydantic import BaseModel
from ekosis.clients import PersistedTCPClient, PersistedUDSClient, TransientTCPClient, TransientUDSClient, UDPClient
from ekosis.data_transfer_objects import SpanKey, SpanId
logging.disable(logging.CRITICAL)
vloop.install()

# a loopback address of its own: nobody else takes the port while the server is down
HOST = f"127.{64 + (os.getpid() >> 8) % 64}.{os.getpid() % 256}.2"

class Req(BaseModel):
    n: int
    s: str = ""
    o: int | None = 5
    def __len__(self): return 0         # a DTO may well be falsy
class Rsp(BaseModel):
    n: int
    k: int
    def __len__(self): return 0
def opt(i): return (5, None, 7)[i % 3]

def key(i):
    return SpanKey(trace_id=UUID(int=i * 7 + 1), span_id=SpanId(int_=i))

class World:
    def __init__(self, sc, n):
        self.sc, self.n, self.tr, self.nconn, self.cnt = sc, n, [], 0, {}
        self.kind = sc["kind"]
        self.conns, self.server = {}, None
        self.port = None
        self.isup = False
        self.jammed = []
        self.path = f"{SCRATCH}/s{n}.sock"
        self.reacts = {c["id"]: c["reacts"] for c in sc["calls"]}
        self.hb = list(sc.get("hb_reacts", []))
        self.tasks = set()

    def key(self, i):
        return key(1 if self.sc.get("sharekey") else i)
    def ms(self):
        return round((self.loop.time() - self.t0) * 1000)
    def ev(self, ev, **k):
        self.tr.append(dict(ev=ev, tm=self.ms(), **k))
    def spawn(self, coro):
        t = self.loop.create_task(coro); self.tasks.add(t); t.add_done_callback(self.tasks.discard); return t

    # ---------------------------------------------------------------- server
    async def up(self, first=False):
        if self.isup: return
        self.isup = True
        for x in self.jammed: x.close()
        self.jammed = []
        if self.kind == "udp":
            w = self
            class P(asyncio.DatagramProtocol):
                def connection_made(s, tr): s.tr = tr
                def datagram_received(s, data, addr):
                    w.spawn(w.datagram(s.tr, data, addr))
            self.udp, _ = await self.loop.create_datagram_endpoint(P, local_addr=(HOST, self.port or 0))
            self.port = self.udp.get_extra_info("sockname")[1]
        elif "tcp" in self.kind:
            self.server = await asyncio.start_server(self.conn, HOST, self.port or 0, reuse_address=True)
            self.port = self.server.sockets[0].getsockname()[1]
        else:
            if os.path.exists(self.path): os.unlink(self.path)
            self.server = await asyncio.start_unix_server(self.conn, self.path)
        if not first: self.ev("up")

    async def down(self):
        if not self.isup: return
        self.isup = False
        if self.kind == "udp": self.udp.close()
        else:
            self.server.close()
            for c in list(self.conns): self.close(c)
        for _ in range(3): await asyncio.sleep(0)
        self.ev("dn")

    async def jam(self):
        """The server listens, but whoever connects now is kept waiting (its accept queue is full)."""
        if not self.isup or "tcp" not in self.kind: return
        await self.down(); s = socket.socket(); self.jammed = [s]
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((HOST, self.port)); s.listen(0)
        for _ in range(20):
            c = socket.socket(); c.setblocking(False); c.connect_ex((HOST, self.port)); self.jammed.append(c)
            if not select.select([], [c], [], 0.005)[1] and len(self.jammed) > 3: break
        else: raise RuntimeError("the accept queue does not fill up")
        self.ev("jam")

    def close(self, c, how="closed"):
        w = self.conns.pop(c, None)
        if w is None: return
        if how == "reset":
            s = w.get_extra_info("socket")
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            w.transport.abort()
        else:
            w.close()
        self.ev("cl", c=c, how=how)

    def parse(self, data):
        try:
            d = json.loads(data); i = d["data"]["n"]
            ok = (d["route_key"] == f"r.{i}" and d["data"] == {"n": i, "s": "\u00e9x" * (i % 3), "o": opt(i)} and
                  SpanKey(**d["span_key"]) == self.key(i) and data.endswith(b"\n") and set(d) == {"route_key", "span_key", "data"})
            return (i if ok else -1), d
        except Exception:
            return -1, None

    def reaction(self, i):
        k = self.cnt[i] = self.cnt.get(i, 0) + 1
        rs = self.reacts.get(i, [])
        return k, (rs[k - 1] if k <= len(rs) else ["ok", 5])

    def answer(self, i, k, s, d):
        data = {"n": i, "k": k} if s == 0 else f"trouble {i}.{k}"
        return json.dumps(dict(span_key=d["span_key"], status=s, data=data)).encode()

    async def conn(self, r, w):
        self.nconn += 1; c = self.nconn; self.conns[c] = w
        try:
            while True:
                line = await r.readline()
                if not line: break
                if line[:1] == b"\x05":
                    self.ev("hb", c=c)
                    a = self.hb.pop(0) if self.hb else ["ok", 0]
                    out, i, k = b"\x06\n", 0, 0
                else:
                    i, d = self.parse(line); k, a = self.reaction(i)
                    self.ev("tx", id=i, k=k, c=c)
                    if d is None: break
                    out = self.answer(i, k, a[2] if a[0] == "st" else 0, d) + b"\n"
                if a[0] == "never":
                    await asyncio.sleep(1e6)
                if a[0] == "down":
                    await asyncio.sleep(a[1] / 1000); await self.down(); break
                if a[1]: await asyncio.sleep(a[1] / 1000)
                if c not in self.conns: break
                if a[0] in ("ok", "st"):
                    w.write(out)
                    if i: self.ev("rs", id=i, k=k, c=c, s=a[2] if a[0] == "st" else 0)
                elif a[0] == "close": self.close(c); break
                elif a[0] == "partial": w.write(out[:a[2] % (len(out) - 1) + 1]); self.close(c); break
                elif a[0] == "rst": self.close(c, "reset" if "tcp" in self.kind else "closed"); break
        except (ConnectionError, OSError):
            pass
        finally:
            if self.conns.pop(c, None) is not None: w.close()

    async def datagram(self, tr, data, addr):
        i, d = self.parse(data); k, a = self.reaction(i)
        self.ev("tx", id=i, k=k, c=0)
        if d is None or a[0] in ("never", "close", "partial", "rst"): return
        if a[0] == "down":
            await asyncio.sleep(a[1] / 1000); await self.down(); return
        if a[1]: await asyncio.sleep(a[1] / 1000)
        if tr.is_closing(): return
        tr.sendto(self.answer(i, k, a[2] if a[0] == "st" else 0, d), addr)
        self.ev("rs", id=i, k=k, c=0, s=a[2] if a[0] == "st" else 0)
        if a[0] == "dup":                        # the network delivers it twice
            await asyncio.sleep(a[2] / 1000)
            if not tr.is_closing(): tr.sendto(self.answer(i, k, 0, d), addr)

    # ---------------------------------------------------------------- client
    def client(self):
        s = self.sc; T, m, dl, hb = s["T"] / 1000, s["maxr"], s["delay"] / 1000, s.get("hb", 10 ** 9) / 1000
        k = self.kind
        if k == "tcp":  return TransientTCPClient(HOST, self.port, T, m, dl)
        if k == "uds":  return TransientUDSClient(self.path, T, m, dl)
        if k == "ptcp": return PersistedTCPClient(HOST, self.port, T, hb, m, dl)
        if k == "puds": return PersistedUDSClient(self.path, T, hb, m, dl)
        return UDPClient(HOST, self.port, T, m, dl)

    def ports(self):
        """Which local port a new datagram socket gets is up to the operating system: here one that was not used
        in this scenario before, or (sameport) the one the previous socket had."""
        used, make, same = [], self.loop.create_datagram_endpoint, self.sc.get("sameport")
        async def create(factory, local_addr=None, remote_addr=None, **kw):
            if local_addr or not remote_addr: return await make(factory, local_addr=local_addr, remote_addr=remote_addr, **kw)
            if same and used:
                for _ in range(3): await asyncio.sleep(0)       # the previous one is closed in the next round
                try: return await make(factory, local_addr=used[-1], remote_addr=remote_addr, **kw)
                except OSError: pass
            for _ in range(20):
                r = await make(factory, remote_addr=remote_addr, **kw)
                a = r[0].get_extra_info("sockname")
                if a not in used: break
                r[0].close()
            used.append(a)
            return r
        self.loop.create_datagram_endpoint = create

    async def call(self, cl, c):
        i = c["id"]
        self.ev("call", id=i, cn=1 if c.get("cancel") else 0)
        coro = cl.send_message(f"r.{i}", Req(n=i, s="\u00e9x" * (i % 3), **({} if i % 3 == 0 else dict(o=opt(i)))), Rsp, self.key(i))
        o, v = "ok", 0
        try:
            if c.get("cancel"):
                t = self.loop.create_task(coro)
                done, _ = await asyncio.wait([t], timeout=c["cancel"] / 1000)
                if not done:
                    t.cancel()
                    try: await t; o = "ok"
                    except asyncio.CancelledError: o = "cancelled"
                r = t.result() if o == "ok" else None
            else:
                r = await coro
            if o == "ok": v = r.n if type(r) is Rsp else -5
        except Exception as e:
            o = type(e).__name__
            v = 1 if f"trouble {i}.{self.cnt.get(i, 0)}" in str(e) else 0
        self.ev("ret", id=i, o=o, v=v)

    async def main(self):
        self.loop = asyncio.get_running_loop(); self.t0 = self.loop.time()
        s = self.sc
        await self.up(True)
        self.ports()
        cl = self.client()
        km = dict(tcp="tt", uds="tt", ptcp="pp", puds="pp", udp="ud")[self.kind]
        self.tr.append(dict(ev="reset", tm=0, kind=km, maxr=s["maxr"], T=s["T"], delay=s["delay"], solo=1 if s["solo"] else 0))
        for w in s.get("srv", []):
            self.spawn(self.later(w))
        ts = []
        for c in s["calls"]:
            if s["solo"]:
                if c.get("gap"): await asyncio.sleep(c["gap"] / 1000)
                if c.get("pre") == "down" : await self.down()
                if c.get("pre") == "up"   : await self.up()
                if c.get("pre") == "jam"  : await self.jam()
                if c.get("pre") == "drop":
                    for x in list(self.conns): self.close(x)
                t = self.spawn(self.call(cl, c))
                await asyncio.wait([t], timeout=3600); ts.append(t)
            else:
                ts.append(self.spawn(self.start(cl, c)))
        await asyncio.wait(ts, timeout=3600)
        self.ev("end")
        for t in list(self.tasks): t.cancel()
        if self.server: self.server.close()
        if self.kind == "udp": self.udp.close()
        for c in list(self.conns): self.conns.pop(c).close()
        for x in self.jammed: x.close()

    async def later(self, w):
        await asyncio.sleep(w["at"] / 1000)
        if w["do"] == "drop":
            for x in list(self.conns): self.close(x)
        elif w["do"] == "down": await self.down()
        elif w["do"] == "up": await self.up()

    async def start(self, cl, c):
        await asyncio.sleep(c["at"] / 1000)
        await self.call(cl, c)

out = []
for n, sc in enumerate(PAYLOAD["scenarios"]):
    w = World(sc, n)
    vloop.run(w.main())
    try: os.unlink(w.path)
    except FileNotFoundError: pass
    out.append(w.tr)
drv.result(dict(traces=out))
