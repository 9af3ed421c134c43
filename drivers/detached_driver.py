"""Jobs handed over to an event loop; nothing here holds on to them."""
import drv, asyncio, gc, weakref, random, contextvars
from drv import PAYLOAD
from ekosis.util.fire_and_forget_tasks import run_soon, fire_and_forget_task, fire_and_forget_task_for_loop
WHO = contextvars.ContextVar("who", default=0)
try: import uvloop
except ImportError: uvloop = None

class World:
    def __init__(self, w):
        self.w, self.rng = w, random.Random(w["seed"])
        self.o, self.fut, self.task, self.plan = {}, {}, {}, {}
    async def job(self, *args, **kw):
        j = args[0]; o = self.o[j]
        o["starts"] += 1; self.task[j] = weakref.ref(asyncio.current_task())
        o["args"] = int((args, kw) == self.plan[j][0]); o["ctx"] = int(WHO.get() == j)
        end, pauses = self.plan[j][1:]
        for _ in range(pauses):
            f = asyncio.get_running_loop().create_future(); self.fut[j] = weakref.ref(f); o["pauses"] += 1
            await f
            del f
        o["ends"] += 1
        if end == "raise": raise ValueError("a job fails")
        return j
    def hand(self, j, kind, end, p):
        r = self.rng
        args, kw = (j, *[r.randint(0, 9) for _ in range(r.randint(0, 2))]), {k: r.randint(0, 9) for k in ("a", "loop", "function")[:r.choice([0, 0, 1])]}
        self.plan[j] = ((args, kw), end, p); self.o[j] = dict(j=j, starts=0, pauses=0, ends=0, alive=0, args=1, ctx=1)
        WHO.set(j)
        try:
            if kind == "soon": back = self.soon(*args, **kw)
            elif kind == "task": back = fire_and_forget_task(self.job(*args, **kw))
            else: back = fire_and_forget_task_for_loop(asyncio.get_running_loop(), self.job(*args, **kw))
        except Exception as x: back = x
        early = self.o[j]["starts"]
        return early, "none" if back is None else "task" if isinstance(back, asyncio.Task) else type(back).__name__
    async def settle(self):
        for _ in range(8): await asyncio.sleep(0)
    async def op(self, n, j, kind, end, p):
        e = dict(ev="op", n=n, j=j, kind=kind, end=end, p=p, early=0, back="")
        if n == "call":
            if self.rng.random() < 0.4:                        # from a task that is over, or cancelled, right after
                async def caller():
                    out.extend(self.hand(j, kind, end, p))
                    if cut: await asyncio.sleep(100)
                cut, out = self.rng.random() < 0.5, []
                t = asyncio.create_task(caller()); await asyncio.sleep(0)
                if cut: t.cancel()
                try: await t
                except asyncio.CancelledError: pass
                del t, caller
                e["early"], e["back"] = out
            else: e["early"], e["back"] = self.hand(j, kind, end, p)
        elif n == "wake":
            f = self.fut[j]() if j in self.fut else None
            if f is not None and not f.done(): f.set_result(None)
            del f
        elif n == "gc": gc.collect()
        await self.settle()
        if n == "gc": gc.collect()
        for j, o in self.o.items(): o["alive"] = int(j in self.task and self.task[j]() is not None)
        e["jobs"] = [dict(o) for o in self.o.values()]
        return e
    async def run(self):
        self.soon = run_soon(self.job)
        asyncio.get_running_loop().set_exception_handler(lambda l, c: None)
        tr = [dict(ev="reset")]
        for x in self.w["ops"]: tr.append(await self.op(*x))
        for j in list(self.o):
            while self.o[j]["pauses"] > self.o[j]["ends"] and not self.o[j]["ends"] and j in self.fut and self.fut[j]() is not None: tr.append(await self.op("wake", j, "", "", 0))
        tr.append(await self.op("gc", 0, "", "", 0))
        return tr

out = []
gc.disable()
for w in PAYLOAD["walks"]:
    world = World(w)
    if w.get("uv") and uvloop: out.append(uvloop.run(world.run()))
    else: out.append(asyncio.run(world.run()))
drv.result(dict(traces=out))
